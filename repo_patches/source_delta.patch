From aedb27b7d78e4025128bf1f9c9b634b2083f27a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:04 +0000
Subject: [PATCH 001/197] fix: honour int defaults in DecimalValue, so the
 range limits of the integer types are enforced

---
 decimal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/decimal.go b/decimal.go
index 00c00dd..91943aa 100644
--- a/decimal.go
+++ b/decimal.go
@@ -72,6 +72,9 @@ func DecimalValue(val *Decimal, defval interface{}) *Decimal {
 		switch n := defval.(type) {
 		case *Decimal:
 			return n
+		case int:
+			d, _ := ParseDecimal(fmt.Sprint(n))
+			return d
 		case int64:
 			d, _ := ParseDecimal(fmt.Sprint(n))
 			return d
-- 
2.43.0


From f171e39fafcad6c56dc9888d015c5acab54bab4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:04 +0000
Subject: [PATCH 002/197] fix: reject infinities in ParseDecimal, which have no
 JSON representation

---
 decimal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decimal.go b/decimal.go
index 91943aa..39db9b2 100644
--- a/decimal.go
+++ b/decimal.go
@@ -31,7 +31,7 @@ func (d *Decimal) UnmarshalJSON(b []byte) error {
 
 func ParseDecimal(text string) (*Decimal, error) {
 	num, _, err := big.ParseFloat(text, 10, DecimalPrecision, big.ToNearestEven)
-	if err != nil {
+	if err != nil || num.IsInf() {
 		return nil, fmt.Errorf("Bad Decimal number: %s", text)
 	}
 	return &Decimal{Float: *num}, nil
-- 
2.43.0


From ca3bd20c7f025e94698c2340f4b5dd3fbd9f1d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:04 +0000
Subject: [PATCH 003/197] fix: print timestamps in UTC and with a four digit
 year

---
 timestamp.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timestamp.go b/timestamp.go
index 6eecf68..a458cc3 100644
--- a/timestamp.go
+++ b/timestamp.go
@@ -11,12 +11,13 @@ type Timestamp struct {
 	time.Time
 }
 
-const RFC3339Milli = "%d-%02d-%02dT%02d:%02d:%02d.%03dZ"
+const RFC3339Milli = "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ"
 
 func (ts Timestamp) String() string {
 	if ts.IsZero() {
 		return ""
 	}
+	ts.Time = ts.UTC()
 	return fmt.Sprintf(RFC3339Milli, ts.Year(), ts.Month(), ts.Day(), ts.Hour(), ts.Minute(), ts.Second(), ts.Nanosecond()/1000000)
 }
 
-- 
2.43.0


From c85356026e21e1a117614372cdebf33e09057682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:04 +0000
Subject: [PATCH 004/197] fix: escape the unit when encoding a UnitValue as
 JSON

---
 unitvalue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unitvalue.go b/unitvalue.go
index e630886..15be343 100644
--- a/unitvalue.go
+++ b/unitvalue.go
@@ -40,7 +40,7 @@ func NewUnitValue(value float64, unit string) *UnitValue {
 }
 
 func (q *UnitValue) MarshalJSON() ([]byte, error) {
-	return []byte("\"" + q.String() + "\""), nil
+	return json.Marshal(q.String())
 }
 
 func (q *UnitValue) UnmarshalJSON(b []byte) error {
-- 
2.43.0


From 2d85093e33e147fc1dae65afc94e4cac3f716140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:04 +0000
Subject: [PATCH 005/197] fix: reject UUIDs containing anything but hexadecimal
 digits

---
 uuid.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/uuid.go b/uuid.go
index b509003..7392271 100644
--- a/uuid.go
+++ b/uuid.go
@@ -29,5 +29,13 @@ func ParseUUID(text string) UUID {
 	if text[8] != '-' || text[13] != '-' || text[18] != '-' || text[23] != '-' {
 		return ""
 	}
+	for i, ch := range text {
+		if i == 8 || i == 13 || i == 18 || i == 23 {
+			continue
+		}
+		if !IsDigit(ch) && !(ch >= 'a' && ch <= 'f') && !(ch >= 'A' && ch <= 'F') {
+			return ""
+		}
+	}
 	return UUID(text)
 }
-- 
2.43.0


From 033cf33d4fcba65cb895386fc3fd81049ec795d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:30 +0000
Subject: [PATCH 006/197] fix: do not validate numbers with a fraction against
 integer types

---
 model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model.go b/model.go
index 01bb72a..bd7c72c 100644
--- a/model.go
+++ b/model.go
@@ -299,6 +299,9 @@ func (model *Model) ValidateNumber(context string, td *TypeSpec, value interface
 				maxval = DecimalValue(td.Max, math.MaxInt8)
 			}
 			nval := n.AsBigFloat()
+			if strings.HasPrefix(td.Type, "Int") && !nval.IsInt() {
+				return fmt.Errorf("%s: Not an integer: %v", context, n)
+			}
 			if minval != nil {
 				nmin := minval.AsBigFloat()
 				if nval.Cmp(nmin) < 0 {
-- 
2.43.0


From c8bd522a0b5fb1328af484e40752d1e8c28bea67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:30 +0000
Subject: [PATCH 007/197] fix: validate unit values whose number is shorter
 than three characters

---
 model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model.go b/model.go
index bd7c72c..0c2ebfd 100644
--- a/model.go
+++ b/model.go
@@ -239,7 +239,7 @@ func (model *Model) ValidateUnitValue(context string, td *TypeSpec, value interf
 	case *string:
 		s := *sp
 		n := strings.Index(s, " ")
-		if n >= 3 {
+		if n > 0 {
 			val := s[:n]
 			unit := s[n+1:]
 			nval, err := ParseDecimal(val)
-- 
2.43.0


From 8fe27f364cd01991184178708fd5af2b1bbc4c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:30 +0000
Subject: [PATCH 008/197] fix: validate the keys of a map against its key type

---
 model.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/model.go b/model.go
index 0c2ebfd..35a6054 100644
--- a/model.go
+++ b/model.go
@@ -402,6 +402,18 @@ func (model *Model) ValidateMap(context string, td *TypeSpec, value interface{})
 				}
 			}
 		}
+		if ktd := model.FindType(td.Keys); ktd != nil {
+			switch ktd.Type {
+			case "String", "Enum", "UUID", "Timestamp":
+				for k, _ := range a {
+					key := k
+					err := model.ValidateAgainstTypeSpec(fmt.Sprintf("%s key %q", context, k), &ktd.TypeSpec, &key)
+					if err != nil {
+						return err
+					}
+				}
+			}
+		}
 		if td.MaxSize != nil {
 			if len(a) > int(*td.MaxSize) {
 				return fmt.Errorf("%s: Map is too large (maxsize=%d): %v", context, *td.MaxSize, Pretty(value))
-- 
2.43.0


From f09343e2d8ecd6a156fc3e5f090f3d21d3254c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:30 +0000
Subject: [PATCH 009/197] fix: validate values of Union types, instead of
 recursing until the stack overflows

---
 model.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/model.go b/model.go
index 35a6054..de4edef 100644
--- a/model.go
+++ b/model.go
@@ -192,6 +192,8 @@ func (model *Model) ValidateAgainstTypeSpec(context string, td *TypeSpec, value
 		return model.ValidateUnitValue(context, td, value)
 	case "UUID":
 		return model.ValidateUUID(context, td, value)
+	case "Union":
+		return model.ValidateUnion(context, td, value)
 	case "Bytes":
 		//fixme
 		return nil
@@ -356,6 +358,22 @@ func (model *Model) ValidateStruct(context string, td *TypeSpec, value interface
 	return nil
 }
 
+func (model *Model) ValidateUnion(context string, td *TypeSpec, value interface{}) error {
+	m, ok := value.(map[string]interface{})
+	if !ok || len(m) != 1 {
+		return fmt.Errorf("%s: Not a Union (an object with exactly one variant): %v", context, Pretty(value))
+	}
+	for k, v := range m {
+		for _, variant := range td.Variants {
+			if variant.Name == k {
+				return model.ValidateAgainstTypeSpec(context+"."+k, &variant.TypeSpec, v)
+			}
+		}
+		return fmt.Errorf("Undefined variant in %s: '%s'", context, k)
+	}
+	return nil
+}
+
 func (model *Model) ValidateArray(context string, td *TypeSpec, value interface{}) error {
 	switch a := value.(type) {
 	case []interface{}:
-- 
2.43.0


From aaeb5468b6c2ef6e94386f4c711a411aa6680588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:30 +0000
Subject: [PATCH 010/197] fix: compare the sizes and limits of types by value
 when deciding their equivalence

---
 model.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/model.go b/model.go
index de4edef..5880dd8 100644
--- a/model.go
+++ b/model.go
@@ -74,7 +74,7 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 	//TODO: check annotations
 	switch ts1.Type {
 	case "String":
-		if ts1.Pattern != ts2.Pattern || ts1.MinSize != ts2.MinSize || ts1.MaxSize != ts1.MaxSize || len(ts1.Values) != len(ts2.Values) {
+		if ts1.Pattern != ts2.Pattern || !equalSize(ts1.MinSize, ts2.MinSize) || !equalSize(ts1.MaxSize, ts2.MaxSize) || len(ts1.Values) != len(ts2.Values) {
 			return false
 		}
 		if ts1.Reference != ts2.Reference {
@@ -100,7 +100,7 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 			return false
 		}
 	case "Bytes":
-		if ts1.MinSize != ts2.MinSize || ts1.MaxSize != ts1.MaxSize {
+		if !equalSize(ts1.MinSize, ts2.MinSize) || !equalSize(ts1.MaxSize, ts2.MaxSize) {
 			return false
 		}
 	case "UnitValue":
@@ -111,7 +111,7 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 			return false
 		}
 	case "Array", "Map":
-		if ts1.MinSize != ts2.MinSize || ts1.MaxSize != ts1.MaxSize {
+		if !equalSize(ts1.MinSize, ts2.MinSize) || !equalSize(ts1.MaxSize, ts2.MaxSize) {
 			return false
 		}
 		if !model.EquivalentTypesByName(ts1.Items, ts2.Items) {
@@ -121,7 +121,7 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 			return false
 		}
 	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
-		if ts1.Min != ts2.Min || ts1.Max != ts2.Max {
+		if !equalDecimal(ts1.Min, ts2.Min) || !equalDecimal(ts1.Max, ts2.Max) {
 			return false
 		}
 	case "Enum":
@@ -156,6 +156,20 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 	return true
 }
 
+func equalSize(n1, n2 *int64) bool {
+	if n1 == nil || n2 == nil {
+		return n1 == n2
+	}
+	return *n1 == *n2
+}
+
+func equalDecimal(d1, d2 *Decimal) bool {
+	if d1 == nil || d2 == nil {
+		return d1 == d2
+	}
+	return d1.Cmp(d2.AsBigFloat()) == 0
+}
+
 func (model *Model) Validate(context string, typename string, value interface{}) error {
 	td := model.FindType(typename)
 	if td == nil {
-- 
2.43.0


From 64e1628ff71e8de20c0752dc3a2ae53293fef776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:08 +0000
Subject: [PATCH 011/197] fix: stop comparing mutually recursive types for
 equivalence forever

---
 model.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/model.go b/model.go
index 5880dd8..c3167d0 100644
--- a/model.go
+++ b/model.go
@@ -62,12 +62,28 @@ func (model *Model) EquivalentTypesByName(tname1, tname2 string) bool {
 	if tname1 == tname2 {
 		return true
 	}
+	return model.equivalentTypesByName(tname1, tname2, make(map[string]bool, 0))
+}
+
+func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
+	return model.equivalentTypes(ts1, ts2, make(map[string]bool, 0))
+}
+
+// a pair of types that is already being compared further up is assumed to be equivalent
+func (model *Model) equivalentTypesByName(tname1, tname2 string, pending map[string]bool) bool {
+	if tname1 == tname2 || pending[tname1+" "+tname2] {
+		return true
+	}
 	td1 := model.FindType(tname1)
 	td2 := model.FindType(tname2)
-	return model.EquivalentTypes(&td1.TypeSpec, &td2.TypeSpec)
+	if td1 == nil || td2 == nil {
+		return false
+	}
+	pending[tname1+" "+tname2] = true
+	return model.equivalentTypes(&td1.TypeSpec, &td2.TypeSpec, pending)
 }
 
-func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
+func (model *Model) equivalentTypes(ts1, ts2 *TypeSpec, pending map[string]bool) bool {
 	if ts1.Type != ts2.Type {
 		return false
 	}
@@ -104,20 +120,20 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 			return false
 		}
 	case "UnitValue":
-		if !model.EquivalentTypesByName(ts1.Unit, ts2.Unit) {
+		if !model.equivalentTypesByName(ts1.Unit, ts2.Unit, pending) {
 			return false
 		}
-		if !model.EquivalentTypesByName(ts1.Value, ts2.Value) {
+		if !model.equivalentTypesByName(ts1.Value, ts2.Value, pending) {
 			return false
 		}
 	case "Array", "Map":
 		if !equalSize(ts1.MinSize, ts2.MinSize) || !equalSize(ts1.MaxSize, ts2.MaxSize) {
 			return false
 		}
-		if !model.EquivalentTypesByName(ts1.Items, ts2.Items) {
+		if !model.equivalentTypesByName(ts1.Items, ts2.Items, pending) {
 			return false
 		}
-		if !model.EquivalentTypesByName(ts1.Keys, ts2.Keys) {
+		if !model.equivalentTypesByName(ts1.Keys, ts2.Keys, pending) {
 			return false
 		}
 	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
-- 
2.43.0


From af406112c14a894129089fe7c6f174d0ab4f0a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:08 +0000
Subject: [PATCH 012/197] fix: compare the fields of structs, and not only
 their number, when deciding type equivalence

---
 model.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/model.go b/model.go
index c3167d0..a110520 100644
--- a/model.go
+++ b/model.go
@@ -115,6 +115,16 @@ func (model *Model) equivalentTypes(ts1, ts2 *TypeSpec, pending map[string]bool)
 		if len(ts1.Fields) != len(ts2.Fields) {
 			return false
 		}
+		m := make(map[string]*StructFieldDef, 0)
+		for _, f := range ts1.Fields {
+			m[f.Name] = f
+		}
+		for _, f := range ts2.Fields {
+			f1, ok := m[f.Name]
+			if !ok || f1.Required != f.Required || !model.equivalentTypes(&f1.TypeSpec, &f.TypeSpec, pending) {
+				return false
+			}
+		}
 	case "Bytes":
 		if !equalSize(ts1.MinSize, ts2.MinSize) || !equalSize(ts1.MaxSize, ts2.MaxSize) {
 			return false
-- 
2.43.0


From a08d18afe70238620024818c91e7ad51ffd90f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:08 +0000
Subject: [PATCH 013/197] fix: do not define a type twice when refactoring
 inline enums

---
 model.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/model.go b/model.go
index a110520..7fc82b1 100644
--- a/model.go
+++ b/model.go
@@ -671,6 +671,7 @@ func (model *Model) FindExampleType(ex *ExampleDef) (*TypeSpec, error) {
 func (model *Model) ConvertInlineEnums() error {
 	//	refs := make(map[string]*TypeSpec, 0)
 	var tds []*TypeDef
+	added := make(map[string]*TypeDef, 0)
 	for _, td := range model.Types {
 		switch td.Type {
 		case "Struct":
@@ -685,6 +686,9 @@ func (model *Model) ConvertInlineEnums() error {
 						Name:     tname,
 					}
 					prev := model.FindType(tname)
+					if prev == nil {
+						prev = added[tname]
+					}
 					if prev != nil {
 						if !model.EquivalentTypes(&prev.TypeSpec, &fdef.TypeSpec) {
 							//Alternatively, could prefix the struct type name to the new type `td.Name + tname` to make it unique. Steill not foolproof.
@@ -694,7 +698,10 @@ func (model *Model) ConvertInlineEnums() error {
 					var blank TypeSpec
 					fdef.TypeSpec = blank
 					fdef.Type = tname
-					tds = append(tds, ntd)
+					if prev == nil {
+						added[tname] = ntd
+						tds = append(tds, ntd)
+					}
 				}
 			}
 		}
-- 
2.43.0


From d851844fc0f7ece32e4f60356e2324b139d834ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:08 +0000
Subject: [PATCH 014/197] fix: a path into config data whose intermediate key
 is absent finds nothing

---
 data.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/data.go b/data.go
index b72f5ad..c0aa172 100644
--- a/data.go
+++ b/data.go
@@ -112,6 +112,8 @@ func (data *Data) get(keys []string) interface{} {
 					} else {
 						return v
 					}
+				} else {
+					return nil
 				}
 			}
 		}
-- 
2.43.0


From d9fa86e71fd2479a6ce31ef86b79b4f22ef67aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:08 +0000
Subject: [PATCH 015/197] fix: report failures to write the end of a generated
 file

---
 generator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generator.go b/generator.go
index 92d1311..0c2228b 100644
--- a/generator.go
+++ b/generator.go
@@ -75,7 +75,9 @@ func (gen *Generator) WriteFile(path string, content string) {
 	defer f.Close()
 	writer := bufio.NewWriter(f)
 	_, gen.Err = writer.WriteString(content)
-	writer.Flush()
+	if err = writer.Flush(); gen.Err == nil {
+		gen.Err = err
+	}
 }
 
 func (gen *Generator) EmitTemplate(name string, tmplSource string, data interface{}, funcMap template.FuncMap) {
-- 
2.43.0


From fa44b362a122109db8aef7a9a1e28724bf5f4b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:10 +0000
Subject: [PATCH 016/197] fix: export PATCH, HEAD and OPTIONS actions to
 OpenAPI, instead of dropping them

---
 openapi/export_openapi.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index aa4b750..47d7edc 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -136,6 +136,23 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 				return nil, fmt.Errorf("Duplicate HTTP Method spec (%s %s)", hdef.Method, p)
 			}
 			pi.Post = op
+		case "PATCH":
+			if pi.Patch != nil {
+				return nil, fmt.Errorf("Duplicate HTTP Method spec (%s %s)", hdef.Method, p)
+			}
+			pi.Patch = op
+		case "HEAD":
+			if pi.Head != nil {
+				return nil, fmt.Errorf("Duplicate HTTP Method spec (%s %s)", hdef.Method, p)
+			}
+			pi.Head = op
+		case "OPTIONS":
+			if pi.Options != nil {
+				return nil, fmt.Errorf("Duplicate HTTP Method spec (%s %s)", hdef.Method, p)
+			}
+			pi.Options = op
+		default:
+			return nil, fmt.Errorf("HTTP Method not supported by OpenAPI (%s %s)", hdef.Method, p)
 		}
 		for _, in := range hdef.Inputs {
 			param := &Parameter{
-- 
2.43.0


From 0a5ff6020ed77b4be3f96212bf07110ff29e08cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:10 +0000
Subject: [PATCH 017/197] fix: export HTTP actions without an expected response
 to OpenAPI, instead of crashing

---
 openapi/export_openapi.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 47d7edc..78af4fa 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -197,7 +197,11 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 		responses := make(map[string]*Response, 0)
 		op.Responses = responses
 		content := make(map[string]*MediaType)
-		comment := hdef.Expected.Comment
+		expected := hdef.Expected
+		if expected == nil {
+			expected = &sadl.HttpExpectedSpec{Status: 200}
+		}
+		comment := expected.Comment
 		if comment == "" {
 			comment = "Expected response"
 		}
@@ -206,7 +210,7 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 			Content:     content,
 		}
 		var headers map[string]*Header
-		for _, param := range hdef.Expected.Outputs {
+		for _, param := range expected.Outputs {
 			if param.Header != "" {
 				pschema, err := gen.oasSchema(&param.TypeSpec, "")
 				if err != nil {
@@ -234,7 +238,7 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 		if len(headers) > 0 {
 			resp.Headers = headers
 		}
-		key := fmt.Sprint(hdef.Expected.Status)
+		key := fmt.Sprint(expected.Status)
 		responses[key] = resp
 		for _, out := range hdef.Exceptions {
 			content := make(map[string]*MediaType)
-- 
2.43.0


From b3f912d3434e20840d8ea4b1a5ea0304a396c309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:10 +0000
Subject: [PATCH 018/197] fix: export arrays of Float64 to OpenAPI, instead of
 crashing

---
 openapi/export_openapi.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 78af4fa..efd2bb8 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -576,9 +576,6 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 		}
 		return sch, nil
 	case "Int32", "Int16", "Int8", "Int64", "Float32", "Float64", "Decimal":
-		if td.Type == "Float64" && name != "" {
-			panic("here? " + name + " -> " + sadl.Pretty(td))
-		}
 		stype, sformat, scomment := oasNumericEquivalent(td.Type)
 		sch := &Schema{
 			Type:        stype,
-- 
2.43.0


From 9f027038b7fa994f950aaf9db84d09a50fff0ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:10 +0000
Subject: [PATCH 019/197] fix: refer to the item types of maps by name in
 OpenAPI, instead of by no name or by endless expansion

---
 openapi/export_openapi.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index efd2bb8..777af32 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -498,7 +498,7 @@ func (gen *Generator) exportArrayTypeDef(td *sadl.TypeDef) (*Schema, error) {
 
 func (gen *Generator) exportMapTypeDef(td *sadl.TypeDef) (*Schema, error) {
 	itd := gen.Model.FindType(td.Items)
-	itemSchema, err := gen.oasSchema(&itd.TypeSpec, "")
+	itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
 	if err != nil {
 		return nil, err
 	}
@@ -652,7 +652,7 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 	case "Map":
 		//note: keys are always strings
 		itd := gen.Model.FindType(td.Items)
-		itemSchema, err := gen.oasSchema(&itd.TypeSpec, "")
+		itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 9560d1a790a46ec4252e3dd1221bad137fdb7cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:10 +0000
Subject: [PATCH 020/197] fix: spell out inline enums, unions and base types in
 OpenAPI, instead of referring to undefined schemas

---
 openapi/export_openapi.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 777af32..3c5f4cf 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -474,8 +474,9 @@ func (gen *Generator) exportUnionTypeDef(td *sadl.TypeDef) (*Schema, error) {
 		Description: td.Comment,
 	}
 	for _, vd := range td.Variants {
-		v := &Schema{
-			Ref: "#/components/schemas/" + vd.Type,
+		v, err := gen.oasSchema(&vd.TypeSpec, "")
+		if err != nil {
+			return nil, err
 		}
 		schema.OneOf = append(schema.OneOf, v)
 	}
@@ -635,9 +636,22 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 		}
 		return tr, nil
 	case "Enum":
+		if name == "" {
+			//an inline enum, it has no name to refer to
+			return gen.exportEnumTypeDef(&sadl.TypeDef{TypeSpec: *td})
+		}
+		return &Schema{
+			Ref: "#/components/schemas/" + name,
+		}, nil
+	case "Union":
+		if name == "" {
+			return gen.exportUnionTypeDef(&sadl.TypeDef{TypeSpec: *td})
+		}
 		return &Schema{
 			Ref: "#/components/schemas/" + name,
 		}, nil
+	case "Any":
+		return &Schema{}, nil
 	case "Array":
 		itd := gen.Model.FindType(td.Items)
 		itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
-- 
2.43.0


From 4515b357c7108ca1cd70e3a525225785ca8a5dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:10 +0000
Subject: [PATCH 021/197] fix: export the allowed values of string fields and
 parameters to OpenAPI

---
 openapi/export_openapi.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 3c5f4cf..8974058 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -516,13 +516,6 @@ func (gen *Generator) exportStringTypeDef(td *sadl.TypeDef) (*Schema, error) {
 		return nil, err
 	}
 	otd.Description = td.Comment
-	if len(td.Values) > 0 {
-		e := make([]interface{}, 0)
-		for _, s := range td.Values {
-			e = append(e, s)
-		}
-		otd.Enum = e
-	}
 	return otd, nil
 }
 
@@ -613,6 +606,9 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 			tmp := uint64(*td.MaxSize)
 			tr.MaxLength = &tmp
 		}
+		for _, s := range td.Values {
+			tr.Enum = append(tr.Enum, s)
+		}
 		return tr, nil
 	case "Timestamp":
 		tr := &Schema{
-- 
2.43.0


From 4b9d6ec7ee0a33f11a6ce20edf7511c0d8ba4bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:10 +0000
Subject: [PATCH 022/197] fix: export the comments of numeric types to OpenAPI

---
 openapi/export_openapi.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 8974058..a365153 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -410,6 +410,9 @@ func (gen *Generator) exportTypeDef(td *sadl.TypeDef) (*Schema, error) {
 		return gen.exportEnumTypeDef(td)
 	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
 		stype, sformat, scomment := oasNumericEquivalent(td.Type)
+		if td.Comment != "" {
+			scomment = td.Comment
+		}
 		otd := &Schema{
 			Description: scomment,
 			Type:        stype,
-- 
2.43.0


From 68a6d557581500987ba3e7a6ec51551975be2a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:10 +0000
Subject: [PATCH 023/197] fix: export the sizes of arrays and maps to OpenAPI

---
 openapi/export_openapi.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index a365153..938cbe7 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -497,6 +497,7 @@ func (gen *Generator) exportArrayTypeDef(td *sadl.TypeDef) (*Schema, error) {
 		Description: td.Comment,
 		Items:       itemSchema,
 	}
+	exportItemCounts(&td.TypeSpec, schema)
 	return schema, nil
 }
 
@@ -506,11 +507,30 @@ func (gen *Generator) exportMapTypeDef(td *sadl.TypeDef) (*Schema, error) {
 	if err != nil {
 		return nil, err
 	}
-	return &Schema{
+	schema := &Schema{
 		Type:                 "object",
 		Description:          td.Comment,
 		AdditionalProperties: itemSchema,
-	}, nil
+	}
+	exportItemCounts(&td.TypeSpec, schema)
+	return schema, nil
+}
+
+func exportItemCounts(td *sadl.TypeSpec, schema *Schema) {
+	var min uint64
+	var max *uint64
+	if td.MinSize != nil {
+		min = uint64(*td.MinSize)
+	}
+	if td.MaxSize != nil {
+		tmp := uint64(*td.MaxSize)
+		max = &tmp
+	}
+	if td.Type == "Array" {
+		schema.MinItems, schema.MaxItems = min, max
+	} else {
+		schema.MinProps, schema.MaxProps = min, max
+	}
 }
 
 func (gen *Generator) exportStringTypeDef(td *sadl.TypeDef) (*Schema, error) {
@@ -661,6 +681,7 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 			Type:  "array",
 			Items: itemSchema,
 		}
+		exportItemCounts(td, tr)
 		return tr, nil
 	case "Map":
 		//note: keys are always strings
@@ -673,6 +694,7 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 			Type:                 "object",
 			AdditionalProperties: itemSchema,
 		}
+		exportItemCounts(td, otd)
 		return otd, nil
 	case "Struct":
 		if name != "" {
-- 
2.43.0


From 4a68e194886ec1452cbc3395be18a119153efad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:10 +0000
Subject: [PATCH 024/197] fix: export which fields of inline structs are
 required to OpenAPI

---
 openapi/export_openapi.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 938cbe7..623d732 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -707,6 +707,9 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 			}
 			f := make(map[string]*Schema, 0)
 			for _, fd := range td.Fields {
+				if fd.Required {
+					sch.Required = append(sch.Required, fd.Name)
+				}
 				fieldSchema, err := gen.oasSchema(&fd.TypeSpec, "")
 				if err != nil {
 					return nil, err
-- 
2.43.0


From c3b440d1a9e034a8bada5d5006e2e63988187900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:10 +0000
Subject: [PATCH 025/197] fix: find the operation an example is for among all
 the methods of a path

---
 openapi/export_openapi.go | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 623d732..750a050 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -367,24 +367,10 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 
 func (gen *Generator) FindOperation(model *Model, opId string) *Operation {
 	for _, pathItem := range model.Paths {
-		var op *Operation
-		if pathItem.Get != nil {
-			op = pathItem.Get
-		} else if pathItem.Put != nil {
-			op = pathItem.Put
-		} else if pathItem.Delete != nil {
-			op = pathItem.Delete
-		} else if pathItem.Post != nil {
-			op = pathItem.Post
-		} else if pathItem.Head != nil {
-			op = pathItem.Head
-		} else if pathItem.Patch != nil {
-			op = pathItem.Patch
-		} else {
-			panic("fix me")
-		}
-		if op.OperationId == opId {
-			return op
+		for _, op := range []*Operation{pathItem.Get, pathItem.Put, pathItem.Delete, pathItem.Post, pathItem.Head, pathItem.Patch, pathItem.Options} {
+			if op != nil && op.OperationId == opId {
+				return op
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From a48c6977d097f7c5cc5149922b2baffca353ce07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:49 +0000
Subject: [PATCH 026/197] fix: do not crash exporting an example to OpenAPI for
 which there is no operation or body

---
 openapi/export_openapi.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 750a050..1cdcc3b 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -284,8 +284,12 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 				hdefName := sadl.Uncapitalize(ed.Target[:len(ed.Target)-7])
 				op := gen.FindOperation(oas, hdefName)
 				if op != nil {
-					for k, v := range ed.Example.(map[string]interface{}) {
+					fields, _ := ed.Example.(map[string]interface{})
+					for k, v := range fields {
 						if k == "body" {
+							if op.RequestBody == nil {
+								continue
+							}
 							tmp := op.RequestBody.Content["application/json"]
 							if ed.Name == "" {
 								tmp.Example = v
@@ -319,13 +323,20 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 				hdefName := sadl.Uncapitalize(ed.Target[:len(ed.Target)-8])
 				op := gen.FindOperation(oas, hdefName)
 				if op != nil {
-					for k, v := range ed.Example.(map[string]interface{}) {
+					fields, _ := ed.Example.(map[string]interface{})
+					for k, v := range fields {
 						if k == "body" {
 							hact := model.FindHttp(hdefName)
 							//FIXME: somehow the example name must include the status to use here
 							//FIXME: currently the parser only handles Request and Response, not Exceptxxx
-							sstatus := fmt.Sprintf("%v", hact.Expected.Status)
+							sstatus := "200"
+							if hact.Expected != nil {
+								sstatus = fmt.Sprintf("%v", hact.Expected.Status)
+							}
 							tmp := op.Responses[sstatus].Content["application/json"]
+							if tmp == nil {
+								continue
+							}
 							if ed.Name == "" {
 								tmp.Example = v
 							} else {
@@ -355,7 +366,7 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 						}
 					}
 				} else {
-					panic("no")
+					fmt.Fprintf(os.Stderr, "[warning: example not exported for %q\n", ed.Target)
 				}
 			} else {
 				fmt.Fprintf(os.Stderr, "[warning: example not exported for %q\n", ed.Target)
-- 
2.43.0


From 5b878783f2478412b5f673eff56483a0d8388da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:49 +0000
Subject: [PATCH 027/197] fix: export arrays and maps of base types, and
 recursive ones, to OpenAPI without dangling references or endless expansion

---
 openapi/export_openapi.go | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 1cdcc3b..28d4ec0 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -484,8 +484,7 @@ func (gen *Generator) exportUnionTypeDef(td *sadl.TypeDef) (*Schema, error) {
 }
 
 func (gen *Generator) exportArrayTypeDef(td *sadl.TypeDef) (*Schema, error) {
-	itd := gen.Model.FindType(td.Items)
-	itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
+	itemSchema, err := gen.oasItemSchema(td.Items)
 	if err != nil {
 		return nil, err
 	}
@@ -499,8 +498,7 @@ func (gen *Generator) exportArrayTypeDef(td *sadl.TypeDef) (*Schema, error) {
 }
 
 func (gen *Generator) exportMapTypeDef(td *sadl.TypeDef) (*Schema, error) {
-	itd := gen.Model.FindType(td.Items)
-	itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
+	itemSchema, err := gen.oasItemSchema(td.Items)
 	if err != nil {
 		return nil, err
 	}
@@ -577,12 +575,26 @@ func oasNumericEquivalent(sadlTypeName string) (string, string, string) {
 	}
 }
 
+func (gen *Generator) oasItemSchema(items string) (*Schema, error) {
+	if items == "" {
+		return &Schema{}, nil //the same as "Any"
+	}
+	itd := gen.Model.FindType(items)
+	if itd == nil {
+		return nil, fmt.Errorf("Undefined item type: %q", items)
+	}
+	return gen.oasSchema(&itd.TypeSpec, items)
+}
+
 func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error) {
 	//	if name != "" {
 	//		return &Schema{
 	//			Ref: "#/components/schemas/" + name,
 	//		}, nil
 	//	}
+	if name == td.Type {
+		name = "" //a base type, which is not defined in the document
+	}
 	switch td.Type {
 	case "Bool":
 		sch := &Schema{
@@ -669,8 +681,12 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 	case "Any":
 		return &Schema{}, nil
 	case "Array":
-		itd := gen.Model.FindType(td.Items)
-		itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
+		if name != "" {
+			return &Schema{
+				Ref: "#/components/schemas/" + name,
+			}, nil
+		}
+		itemSchema, err := gen.oasItemSchema(td.Items)
 		if err != nil {
 			return nil, err
 		}
@@ -682,8 +698,12 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 		return tr, nil
 	case "Map":
 		//note: keys are always strings
-		itd := gen.Model.FindType(td.Items)
-		itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
+		if name != "" {
+			return &Schema{
+				Ref: "#/components/schemas/" + name,
+			}, nil
+		}
+		itemSchema, err := gen.oasItemSchema(td.Items)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From fa3a9d81b4d4cd396f7a26c62ef85c67cfca6515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:04 +0000
Subject: [PATCH 028/197] fix: state the SADL version in models imported from
 OpenAPI, so they can be saved and loaded

---
 openapi/import_openapi.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 034d497..47a3315 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -137,6 +137,7 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 		}
 	}
 	schema := &sadl.Schema{
+		Sadl:    sadl.Version,
 		Name:    name,
 		Comment: comment,
 		Version: model.Info.Version,
-- 
2.43.0


From 087f2efc64ec5eb16f596dcd304c26e1e1a9b429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:04 +0000
Subject: [PATCH 029/197] fix: import OpenAPI documents in a fixed order, and
 those that define no components

---
 openapi/import_openapi.go | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 47a3315..1130eed 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -6,6 +6,7 @@ import (
 	"io/ioutil"
 	"path/filepath"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -142,7 +143,12 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 		Comment: comment,
 		Version: model.Info.Version,
 	}
-	for name, oasSchema := range model.Components.Schemas {
+	schemas := make(map[string]*Schema, 0)
+	if model.Components != nil {
+		schemas = model.Components.Schemas
+	}
+	for _, name := range sortedKeys(schemas) {
+		oasSchema := schemas[name]
 		name = validSadlName(name, oasSchema)
 		if name == "" {
 			continue
@@ -152,7 +158,7 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 		comment := ""
 		tname := oasTypeRef(oasSchema)
 		if tname != "" {
-			if oasDef, ok := model.Components.Schemas[tname]; ok {
+			if oasDef, ok := schemas[tname]; ok {
 				ts, err = convertOasType(tname, oasDef) //doesn't handle N levels
 			} else {
 				panic("hmm")
@@ -175,7 +181,8 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 	}
 
 	httpBindings := true
-	for tmpl, path := range model.Paths {
+	for _, tmpl := range sortedKeys(model.Paths) {
+		path := model.Paths[tmpl]
 		path2 := *path
 		for _, method := range methods {
 			op := getPathOperation(&path2, method)
@@ -347,7 +354,8 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 		ts.Type = "Struct"
 		if oasSchema.Properties != nil {
 			req := oasSchema.Required
-			for fname, fschema := range oasSchema.Properties {
+			for _, fname := range sortedKeys(oasSchema.Properties) {
+				fschema := oasSchema.Properties[fname]
 				fd := &sadl.StructFieldDef{
 					Name:    fname,
 					Comment: fschema.Description,
@@ -369,6 +377,15 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 	return ts, err
 }
 
+func sortedKeys[T any](m map[string]T) []string {
+	keys := make([]string, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 func containsString(lst []string, val string) bool {
 	for _, s := range lst {
 		if s == val {
@@ -506,7 +523,7 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 	//else: if 201 is in the list, use that
 	//else: ? find a likely candidate.
 	var expectedStatus string = "default"
-	for status, _ := range op.Responses {
+	for _, status := range sortedKeys(op.Responses) {
 		if strings.HasPrefix(status, "2") || strings.HasPrefix(status, "3") {
 			expectedStatus = status
 			break
@@ -532,7 +549,8 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 			Status:  int32(code),
 			Comment: eparam.Description,
 		}
-		for header, def := range eparam.Headers {
+		for _, header := range sortedKeys(eparam.Headers) {
+			def := eparam.Headers[header]
 			param := &sadl.HttpParamSpec{}
 			param.Header = header
 			param.Comment = def.Description
@@ -571,7 +589,8 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 		}
 		hact.Expected = ex
 	}
-	for status, param := range op.Responses {
+	for _, status := range sortedKeys(op.Responses) {
+		param := op.Responses[status]
 		if status != expectedStatus {
 			//the status can be "default", or "4XX" (where 'X' is a wildcard) or "404". If the latter, it takes precedence.
 			//for SADL, not specifying the response is a bug. So "default" will be turned into "500". The wildcards
@@ -703,7 +722,7 @@ func findTypeDef(schema *sadl.Schema, name string) *sadl.TypeDef {
 }
 
 func guessDefaultResponseCode(op *Operation) string {
-	for status, _ := range op.Responses {
+	for _, status := range sortedKeys(op.Responses) {
 		if strings.HasPrefix(status, "2") || strings.HasPrefix(status, "3") {
 			//kind of an arbitrary choice: the first one we encounter, and this is random order, too.
 			return status
-- 
2.43.0


From f199714a0c635a9fcfc491932849877f7f40c776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:15 +0000
Subject: [PATCH 030/197] fix: report unsupported or inconsistent OpenAPI
 documents as errors, instead of crashing

---
 openapi/import_openapi.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 1130eed..9a804c4 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -161,7 +161,7 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 			if oasDef, ok := schemas[tname]; ok {
 				ts, err = convertOasType(tname, oasDef) //doesn't handle N levels
 			} else {
-				panic("hmm")
+				return nil, fmt.Errorf("Undefined schema: %q", oasSchema.Ref)
 			}
 		} else {
 			ts, err = convertOasType(name, oasSchema)
@@ -371,8 +371,7 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 			}
 		}
 	default:
-		fmt.Printf("oas type is %q\n", oasSchema.Type)
-		panic("oas type not handled")
+		return ts, fmt.Errorf("OpenAPI type not supported: %q", oasSchema.Type)
 	}
 	return ts, err
 }
@@ -452,8 +451,7 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 		case "path":
 			spec.Path = true
 			if strings.Index(path, "{"+name+"}") < 0 {
-				fmt.Println("WARNING: path param is not in path template:", path, name)
-				panic("here")
+				return nil, fmt.Errorf("Path parameter is not in the path template: %s %q", path, param.Name)
 			}
 		case "header":
 			spec.Header = param.Name
@@ -479,7 +477,7 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 				}
 			}
 			if spec.Type == "Struct" {
-				panic("Whoops, that can't be right")
+				return nil, fmt.Errorf("Parameters of type object not supported: %q", param.Name)
 			}
 			if param.Schema != nil && param.Schema.Enum != nil {
 				for _, val := range param.Schema.Enum {
@@ -597,7 +595,7 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 			if status == "default" {
 				status = "0"
 			} else if strings.Index(status, "X") >= 0 {
-				panic("wildcard response codes not supported")
+				return nil, fmt.Errorf("Wildcard response codes not supported: %q", status)
 			}
 			code, err := strconv.Atoi(status)
 			if err != nil {
@@ -615,7 +613,7 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 						if schref.Ref != "" {
 							ex.Type = oasTypeRef(schref)
 						} else {
-							panic("inline response types not yet supported")
+							return nil, fmt.Errorf("Inline exception types not supported: %s response of %q", status, op.OperationId)
 						}
 						break
 					}
-- 
2.43.0


From 4022cbdb77ad795e1e0a3629c9fff9052edfc82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:15 +0000
Subject: [PATCH 031/197] fix: report errors in nested OpenAPI schemas, instead
 of losing them

---
 openapi/import_openapi.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 9a804c4..888a93e 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -316,8 +316,12 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 				ts.Items = oasTypeRef(oasSchema.Items)
 			} else {
 				its, err := convertOasType(name+".Items", oasSchema.Items)
-				if err == nil {
-					ts.Items = its.Type
+				if err != nil {
+					return ts, err
+				}
+				ts.Items = its.Type
+				if its.Type == "Enum" {
+					ts.Items = "String"
 				}
 			}
 		}
@@ -366,6 +370,9 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 				fd.Type = oasTypeRef(fschema)
 				if fd.Type == "" {
 					fd.TypeSpec, err = convertOasType(name+"."+fname, fschema)
+					if err != nil {
+						return ts, err
+					}
 				}
 				ts.Fields = append(ts.Fields, fd)
 			}
@@ -564,6 +571,9 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 					param.Type = oasTypeRef(schref)
 				} else {
 					param.TypeSpec, err = convertOasType(hact.Name+".Expected."+param.Name, schref) //fix: example
+					if err != nil {
+						return nil, err
+					}
 				}
 				ex.Outputs = append(ex.Outputs, param)
 			}
@@ -578,6 +588,9 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 						result.Type = oasTypeRef(schref)
 					} else {
 						result.TypeSpec, err = convertOasType(hact.Name+".Expected.payload", schref) //fix: example
+						if err != nil {
+							return nil, err
+						}
 					}
 					ex.Outputs = append(ex.Outputs, result)
 				} else {
-- 
2.43.0


From 2f105ca97757ac903782c6524be404260e996edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:15 +0000
Subject: [PATCH 032/197] fix: keep the digits of OpenAPI parameter names, and
 match renamed path parameters with their template

---
 openapi/import_openapi.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 888a93e..bf9080b 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -410,7 +410,7 @@ func uncapitalize(s string) string {
 }
 
 func makeIdentifier(text string) string {
-	reg, _ := regexp.Compile("[^a-zA-Z_][^a-zA-Z_0-9]*")
+	reg, _ := regexp.Compile("^[^a-zA-Z_]+|[^a-zA-Z_0-9]+")
 	return reg.ReplaceAllString(text, "")
 }
 
@@ -457,7 +457,10 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 			queries = append(queries, param.Name+"={"+name+"}")
 		case "path":
 			spec.Path = true
-			if strings.Index(path, "{"+name+"}") < 0 {
+			if name != param.Name {
+				hact.Path = strings.Replace(hact.Path, "{"+param.Name+"}", "{"+name+"}", -1)
+			}
+			if strings.Index(hact.Path, "{"+name+"}") < 0 {
 				return nil, fmt.Errorf("Path parameter is not in the path template: %s %q", path, param.Name)
 			}
 		case "header":
-- 
2.43.0


From 50ad256d6780956eb1a6d090a17115597ef09fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:15 +0000
Subject: [PATCH 033/197] fix: import the formats and limits of OpenAPI
 parameters

---
 openapi/import_openapi.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index bf9080b..711ab92 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -471,20 +471,17 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 		spec.Type = oasTypeRef(param.Schema)
 		if spec.Type == "" {
 			if param.Schema != nil {
-				spec.Type = sadlPrimitiveType(param.Schema.Type)
-			}
-			if spec.Type == "Array" {
-				if param.Schema.Items == nil {
-					spec.Items = "Any"
-				} else {
-					schref := param.Schema.Items
-					switch schref.Type {
-					case "string":
-						spec.Items = "String"
-					default:
-						spec.Items = "Any"
-					}
+				pschema := *param.Schema
+				pschema.Enum = nil    //see below
+				pschema.Example = nil //fix: example
+				ts, err := convertOasType(hact.Name+"."+name, &pschema)
+				if err != nil {
+					return nil, err
 				}
+				spec.TypeSpec = ts
+			}
+			if spec.Type == "Array" && spec.Items == "" {
+				spec.Items = "Any"
 			}
 			if spec.Type == "Struct" {
 				return nil, fmt.Errorf("Parameters of type object not supported: %q", param.Name)
-- 
2.43.0


From f0298c91790194e2f0930a0fdabaa4b4e10c86f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:15 +0000
Subject: [PATCH 034/197] fix: import OpenAPI request bodies whose schema is
 inline, instead of dropping them

---
 openapi/import_openapi.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 711ab92..3cb2c98 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -519,6 +519,20 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 							},
 						}
 						hact.Inputs = append(hact.Inputs, spec)
+					} else if mediadef.Schema != nil {
+						ts, err := convertOasType(hact.Name+".body", mediadef.Schema)
+						if err != nil {
+							return nil, err
+						}
+						spec := &sadl.HttpParamSpec{
+							StructFieldDef: sadl.StructFieldDef{
+								TypeSpec: ts,
+								Comment:  op.RequestBody.Description,
+								Name:     "body",
+								Required: op.RequestBody.Required,
+							},
+						}
+						hact.Inputs = append(hact.Inputs, spec)
 					}
 				}
 			}
-- 
2.43.0


From b2a04fcbf79509c9ee70f59c79ba07dd713e4f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:15 +0000
Subject: [PATCH 035/197] fix: import PATCH and OPTIONS operations from
 OpenAPI, instead of dropping them

---
 openapi/import_openapi.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 3cb2c98..8bddb86 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -122,7 +122,7 @@ func xParse(data []byte, format string) (*Model, error) {
 
 var examples []*sadl.ExampleDef
 
-var methods = []string{"GET", "PUT", "POST", "DELETE", "HEAD"} //to do: "PATCH", "OPTIONS", "TRACE"
+var methods = []string{"GET", "PUT", "POST", "DELETE", "HEAD", "PATCH", "OPTIONS"} //to do: "TRACE"
 
 func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 	annotations := make(map[string]string, 0)
@@ -668,11 +668,11 @@ func getPathOperation(oasPathItem *PathItem, method string) *Operation {
 		return oasPathItem.Delete
 	case "HEAD":
 		return oasPathItem.Head
+	case "PATCH":
+		return oasPathItem.Patch
+	case "OPTIONS":
+		return oasPathItem.Options
 		/*
-			case "PATCH":
-				return oasPathItem.Patch
-			case "OPTIONS":
-				return oasPathItem.Options
 			case "TRACE":
 				return oasPathItem.Trace
 			case "CONNECT":
-- 
2.43.0


From 70e4cf3fb52295908f7a14d8e091031739b8ad29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:15 +0000
Subject: [PATCH 036/197] fix: import the sizes of OpenAPI arrays

---
 openapi/import_openapi.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 8bddb86..0f20e72 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -325,7 +325,14 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 				}
 			}
 		}
-		//minsize, maxsize
+		if oasSchema.MinItems > 0 {
+			tmpMin := int64(oasSchema.MinItems)
+			ts.MinSize = &tmpMin
+		}
+		if oasSchema.MaxItems != nil {
+			tmpMax := int64(*oasSchema.MaxItems)
+			ts.MaxSize = &tmpMax
+		}
 		//comment
 	case "number":
 		ts.Type = "Decimal"
-- 
2.43.0


From ae59c4d05191d06609f493da52e284013db3cf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:15 +0000
Subject: [PATCH 037/197] fix: import OpenAPI maps and alternatives as such,
 instead of as structs without fields

---
 openapi/import_openapi.go | 64 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 64 insertions(+)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 0f20e72..5f326dd 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -362,6 +362,52 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 			ts.Max = sadl.NewDecimal(*oasSchema.Max)
 		}
 	case "", "object":
+		if len(oasSchema.OneOf) > 0 {
+			ts.Type = "Union"
+			for _, oasVariant := range oasSchema.OneOf {
+				vd := &sadl.UnionVariantDef{}
+				vd.Type = oasTypeRef(oasVariant)
+				if vd.Type == "" {
+					vd.TypeSpec, err = convertOasType(name+".Variant", oasVariant)
+					if err != nil {
+						return ts, err
+					}
+				}
+				vd.Name = vd.Type
+				ts.Variants = append(ts.Variants, vd)
+			}
+			return ts, nil
+		}
+		if len(oasSchema.Properties) == 0 {
+			valueSchema, err := additionalProperties(oasSchema)
+			if err != nil {
+				return ts, err
+			}
+			if valueSchema != nil {
+				ts.Type = "Map"
+				ts.Keys = "String"
+				ts.Items = oasTypeRef(valueSchema)
+				if ts.Items == "" {
+					its, err := convertOasType(name+".Items", valueSchema)
+					if err != nil {
+						return ts, err
+					}
+					ts.Items = its.Type
+					if its.Type == "Enum" {
+						ts.Items = "String"
+					}
+				}
+				if oasSchema.MinProps > 0 {
+					tmpMin := int64(oasSchema.MinProps)
+					ts.MinSize = &tmpMin
+				}
+				if oasSchema.MaxProps != nil {
+					tmpMax := int64(*oasSchema.MaxProps)
+					ts.MaxSize = &tmpMax
+				}
+				return ts, nil
+			}
+		}
 		ts.Type = "Struct"
 		if oasSchema.Properties != nil {
 			req := oasSchema.Required
@@ -390,6 +436,24 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 	return ts, err
 }
 
+// the schema for the values of an object with arbitrary keys, or nil if it has none.
+func additionalProperties(oasSchema *Schema) (*Schema, error) {
+	switch props := oasSchema.AdditionalProperties.(type) {
+	case nil, bool:
+		return nil, nil
+	case *Schema:
+		return props, nil
+	default:
+		data, err := json.Marshal(props)
+		if err != nil {
+			return nil, err
+		}
+		valueSchema := &Schema{}
+		err = json.Unmarshal(data, valueSchema)
+		return valueSchema, err
+	}
+}
+
 func sortedKeys[T any](m map[string]T) []string {
 	keys := make([]string, 0, len(m))
 	for k := range m {
-- 
2.43.0


From 05cff430f8a92bf44b0a5514a670520699bf352d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:10 +0000
Subject: [PATCH 038/197] fix: import OpenAPI schemas that refer to a reference

---
 openapi/import_openapi.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 5f326dd..a4087bd 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -158,11 +158,18 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 		comment := ""
 		tname := oasTypeRef(oasSchema)
 		if tname != "" {
-			if oasDef, ok := schemas[tname]; ok {
-				ts, err = convertOasType(tname, oasDef) //doesn't handle N levels
-			} else {
+			oasDef := oasSchema
+			for n := 0; oasDef != nil && oasTypeRef(oasDef) != ""; n++ {
+				if n > len(schemas) {
+					return nil, fmt.Errorf("Schema refers to itself: %q", oasSchema.Ref)
+				}
+				tname = oasTypeRef(oasDef)
+				oasDef = schemas[tname]
+			}
+			if oasDef == nil {
 				return nil, fmt.Errorf("Undefined schema: %q", oasSchema.Ref)
 			}
+			ts, err = convertOasType(tname, oasDef)
 		} else {
 			ts, err = convertOasType(name, oasSchema)
 			comment = oasSchema.Description
-- 
2.43.0


From 3bf765fb7e48a5ef3332ca353216db26444a83b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:10 +0000
Subject: [PATCH 039/197] fix: import OpenAPI schemas that allow any value as
 Any, and not as a struct

---
 openapi/import_openapi.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index a4087bd..da6c2fe 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -415,6 +415,10 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 				return ts, nil
 			}
 		}
+		if oasSchema.Type == "" && len(oasSchema.Properties) == 0 && len(oasSchema.AllOf) == 0 && len(oasSchema.AnyOf) == 0 {
+			ts.Type = "Any"
+			return ts, nil
+		}
 		ts.Type = "Struct"
 		if oasSchema.Properties != nil {
 			req := oasSchema.Required
-- 
2.43.0


From ce70b250d73c965d4d77efb5b57ae3f23e845e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:10 +0000
Subject: [PATCH 040/197] fix: import byte strings from OpenAPI as Bytes, and
 keep warnings out of the generated output

---
 openapi/import_openapi.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index da6c2fe..f6fe571 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io/ioutil"
+	"os"
 	"path/filepath"
 	"regexp"
 	"sort"
@@ -301,6 +302,8 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 				ts.Type = "UUID"
 			} else if oasSchema.Format == "date-time" {
 				ts.Type = "Timestamp"
+			} else if oasSchema.Format == "byte" {
+				ts.Type = "Bytes"
 			} else {
 				ts.Pattern = oasSchema.Pattern
 				if oasSchema.MinLength > 0 {
@@ -312,7 +315,7 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 					ts.MaxSize = &tmpMax
 				}
 				if oasSchema.Format != "" {
-					fmt.Println("NYI: String 'format':", oasSchema.Format)
+					fmt.Fprintln(os.Stderr, "NYI: String 'format':", oasSchema.Format)
 				}
 			}
 		}
@@ -690,7 +693,7 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 					}
 					ex.Outputs = append(ex.Outputs, result)
 				} else {
-					fmt.Println("HTTP Action has no expected result type:", sadl.Pretty(eparam))
+					fmt.Fprintln(os.Stderr, "HTTP Action has no expected result type:", sadl.Pretty(eparam))
 				}
 			}
 		}
-- 
2.43.0


From 6c3908a7fcb0c5238dc00d773c1756fd368eb402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:10 +0000
Subject: [PATCH 041/197] fix: import the parameters of an OpenAPI path into
 each of its operations

---
 openapi/import_openapi.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index f6fe571..3585795 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -199,6 +199,7 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 					continue
 				}
 				if httpBindings {
+					op = withPathParameters(op, path.Parameters)
 					hact, err := convertOasPath(tmpl, op, method)
 					if err != nil {
 						return nil, err
@@ -477,6 +478,24 @@ func sortedKeys[T any](m map[string]T) []string {
 	return keys
 }
 
+// the operation, with the parameters of its path that it does not override.
+func withPathParameters(op *Operation, params []*Parameter) *Operation {
+	merged := *op
+	merged.Parameters = append([]*Parameter{}, op.Parameters...)
+	for _, param := range params {
+		overridden := false
+		for _, p := range op.Parameters {
+			if p.Name == param.Name && p.In == param.In {
+				overridden = true
+			}
+		}
+		if !overridden {
+			merged.Parameters = append(merged.Parameters, param)
+		}
+	}
+	return &merged
+}
+
 func containsString(lst []string, val string) bool {
 	for _, s := range lst {
 		if s == val {
-- 
2.43.0


From ced9bd28a2efdcf537b23bd7755eff47f0e003c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:10 +0000
Subject: [PATCH 042/197] fix: import the limits of Swagger numbers

---
 openapi/import_swagger.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index c5648e8..13f18dc 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -228,12 +228,12 @@ func toV3Schema(v2Any interface{}) *Schema {
 		}
 	case "integer", "number":
 		schema.Format = v2.GetString("format")
-		if v2.Has("min") {
-			f := v2.GetFloat64("min")
+		if v2.Has("minimum") {
+			f := v2.GetFloat64("minimum")
 			schema.Min = &f
 		}
-		if v2.Has("max") {
-			f := v2.GetFloat64("max")
+		if v2.Has("maximum") {
+			f := v2.GetFloat64("maximum")
 			schema.Max = &f
 		}
 	case "boolean":
-- 
2.43.0


From 094f5dc3084d737e5e9329ff1b63414bdee84def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:10 +0000
Subject: [PATCH 043/197] fix: import the descriptions, formats, limits and
 items of Swagger parameters and headers

---
 openapi/import_swagger.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index 13f18dc..198e92b 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -108,16 +108,18 @@ func toV3Operation(model *Model, v2 *sadl.Data, defConsumes []string, defProduce
 			}
 		} else {
 			var tp interface{}
-			tp = paramd.GetString("type")
-			if tp == "" {
+			tp = param
+			if paramd.GetString("type") == "" {
 				tp = paramd.Get("schema")
 			}
 			p := &Parameter{
-				In:       paramd.GetString("in"),
-				Name:     paramd.GetString("name"),
-				Required: paramd.GetBool("required"),
-				Schema:   toV3Schema(tp),
+				In:          paramd.GetString("in"),
+				Name:        paramd.GetString("name"),
+				Description: paramd.GetString("description"),
+				Required:    paramd.GetBool("required"),
+				Schema:      toV3Schema(tp),
 			}
+			p.Schema.Description = "" //the description is of the parameter
 			params = append(params, p)
 		}
 	}
@@ -155,8 +157,9 @@ func toV3Headers(v2 map[string]interface{}) map[string]*Header {
 		vd := sadl.AsData(v)
 		headers[k] = &Header{
 			Description: vd.GetString("description"),
-			Schema:      toV3Schema(vd.GetString("type")),
+			Schema:      toV3Schema(v),
 		}
+		headers[k].Schema.Description = "" //the description is of the header
 	}
 	return headers
 }
-- 
2.43.0


From 57ab6c9632903ac498faa2c9cb0098bedbd4dadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:10 +0000
Subject: [PATCH 044/197] fix: import Swagger schemas that do not state their
 type, instead of crashing

---
 openapi/import_swagger.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index 198e92b..cca111c 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -245,8 +245,12 @@ func toV3Schema(v2Any interface{}) *Schema {
 		if v2.Has("$ref") {
 			schema.Ref = strings.Replace(v2.GetString("$ref"), "#/definitions/", "#/components/schemas/", -1)
 		} else {
-			fmt.Printf("type: %q\n%s\n->%v\n", schema.Type, sadl.Pretty(v2), v2.Get("$ref"))
-			panic("fix this schema")
+			for k, v := range v2.GetData("properties").AsMap() {
+				if schema.Properties == nil {
+					schema.Properties = make(map[string]*Schema, 0)
+				}
+				schema.Properties[k] = toV3Schema(v)
+			}
 		}
 	}
 	return schema
-- 
2.43.0


From 1a3c320aa95375a8a73501e427df72eec6ad49a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:10 +0000
Subject: [PATCH 045/197] fix: import maps and the sizes of arrays from Swagger

---
 openapi/import_swagger.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index cca111c..3332cb3 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -208,8 +208,24 @@ func toV3Schema(v2Any interface{}) *Schema {
 		for k, v := range v2.GetData("properties").AsMap() {
 			schema.Properties[k] = toV3Schema(v)
 		}
+		if v2.Has("additionalProperties") {
+			schema.AdditionalProperties = v2.Get("additionalProperties")
+			if _, ok := schema.AdditionalProperties.(bool); !ok {
+				schema.AdditionalProperties = toV3Schema(schema.AdditionalProperties)
+			}
+		}
+		if v2.Has("maxProperties") {
+			n := uint64(v2.GetInt64("maxProperties"))
+			schema.MaxProps = &n
+		}
+		schema.MinProps = uint64(v2.GetInt64("minProperties"))
 	case "array":
 		schema.Items = toV3Schema(v2.Get("items"))
+		if v2.Has("maxItems") {
+			n := uint64(v2.GetInt64("maxItems"))
+			schema.MaxItems = &n
+		}
+		schema.MinItems = uint64(v2.GetInt64("minItems"))
 	case "string":
 		schema.Format = v2.GetString("format")
 		schema.Pattern = v2.GetString("pattern")
-- 
2.43.0


From 371c1509edd33577fad69e86b782d8ac9d2c6f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:10 +0000
Subject: [PATCH 046/197] fix: import OPTIONS operations from Swagger

---
 openapi/import_swagger.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index 3332cb3..0d82106 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -69,12 +69,13 @@ func toV3Paths(model *Model, v2 *sadl.Data, defConsumes []string, defProduces []
 	for k, v := range v2.AsMap() {
 		vd := sadl.AsData(v)
 		pi := &PathItem{
-			Get:    toV3Operation(model, vd.GetData("get"), defConsumes, defProduces),
-			Delete: toV3Operation(model, vd.GetData("delete"), defConsumes, defProduces),
-			Put:    toV3Operation(model, vd.GetData("put"), defConsumes, defProduces),
-			Post:   toV3Operation(model, vd.GetData("post"), defConsumes, defProduces),
-			Patch:  toV3Operation(model, vd.GetData("patch"), defConsumes, defProduces),
-			Head:   toV3Operation(model, vd.GetData("head"), defConsumes, defProduces),
+			Get:     toV3Operation(model, vd.GetData("get"), defConsumes, defProduces),
+			Delete:  toV3Operation(model, vd.GetData("delete"), defConsumes, defProduces),
+			Put:     toV3Operation(model, vd.GetData("put"), defConsumes, defProduces),
+			Post:    toV3Operation(model, vd.GetData("post"), defConsumes, defProduces),
+			Patch:   toV3Operation(model, vd.GetData("patch"), defConsumes, defProduces),
+			Head:    toV3Operation(model, vd.GetData("head"), defConsumes, defProduces),
+			Options: toV3Operation(model, vd.GetData("options"), defConsumes, defProduces),
 			//etc
 		}
 		paths[k] = pi
-- 
2.43.0


From 20e9ec2d87c1d28aa90673b7d154ca93fd0e447e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:24 +0000
Subject: [PATCH 047/197] fix: export exceptions of base types, or of no type,
 to OpenAPI without dangling references

---
 openapi/export_openapi.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 28d4ec0..79dfa3f 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -250,13 +250,16 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 				Description: comment,
 				Content:     content,
 			}
-			tr := &Schema{
-				Ref: "#/components/schemas/" + out.Type,
-			}
-			mt := &MediaType{
-				Schema: tr,
+			if out.Type != "" {
+				tr, err := gen.oasSchema(&sadl.TypeSpec{Type: out.Type}, "")
+				if err != nil {
+					return nil, err
+				}
+				mt := &MediaType{
+					Schema: tr,
+				}
+				content["application/json"] = mt
 			}
-			content["application/json"] = mt
 			key := "default"
 			if out.Status != 0 {
 				key = fmt.Sprint(out.Status)
-- 
2.43.0


From fc12438b00db7ffb4f6582b0df7fa2f41732d80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:55 +0000
Subject: [PATCH 048/197] fix: do not crash resolving an example for the
 response of an action that has none

---
 model.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/model.go b/model.go
index 7fc82b1..c9ce7bd 100644
--- a/model.go
+++ b/model.go
@@ -622,7 +622,11 @@ func (model *Model) FindExampleType(ex *ExampleDef) (*TypeSpec, error) {
 				if len(lst) > 0 {
 					var tmp *TypeSpec
 					fname := lst[0]
-					for _, out := range h.Expected.Outputs {
+					var outputs []*HttpParamSpec
+					if h.Expected != nil {
+						outputs = h.Expected.Outputs
+					}
+					for _, out := range outputs {
 						if out.Name == fname {
 							lst = lst[1:]
 							tmp = &out.TypeSpec
-- 
2.43.0


From 8d928b422dbffb860f8d43d279c5723ceecc0a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:57 +0000
Subject: [PATCH 049/197] fix: compare the names of union variants when
 deciding type equivalence, which was not symmetric

---
 model.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/model.go b/model.go
index c9ce7bd..df0d343 100644
--- a/model.go
+++ b/model.go
@@ -169,12 +169,13 @@ func (model *Model) equivalentTypes(ts1, ts2 *TypeSpec, pending map[string]bool)
 		if len(ts1.Variants) != len(ts2.Variants) {
 			return false
 		}
-		m := make(map[string]bool, 0)
+		m := make(map[string]*UnionVariantDef, 0)
 		for _, v := range ts1.Variants {
-			m[v.Type] = true
+			m[v.Name] = v
 		}
 		for _, v := range ts2.Variants {
-			if _, ok := m[v.Type]; !ok {
+			v1, ok := m[v.Name]
+			if !ok || !model.equivalentTypes(&v1.TypeSpec, &v.TypeSpec, pending) {
 				return false
 			}
 		}
-- 
2.43.0


From 1251ca63376b99d5182ff50aedb03ffa821a17fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:20 +0000
Subject: [PATCH 050/197] fix: import the packages that Go enums need

---
 golang/golang_model.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index fd34161..691d219 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -198,6 +198,8 @@ func (gen *Generator) EmitEnumType(td *sadl.TypeDef) {
 	if gen.Err != nil {
 		return
 	}
+	gen.addImport("encoding/json")
+	gen.addImport("fmt")
 	funcMap := template.FuncMap{
 		"openBrace": func() string { return "{" },
 		"enumValue": func(el sadl.EnumElementDef) string {
-- 
2.43.0


From 0662016a96616a1bc8c27d8574743e793d46c5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:20 +0000
Subject: [PATCH 051/197] fix: generate Go functions that compile for numeric
 types, fractions included

---
 golang/golang_model.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 691d219..6571001 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -2,6 +2,7 @@ package golang
 
 import (
 	"fmt"
+	"strings"
 	"text/template"
 
 	"github.com/boynton/sadl"
@@ -124,9 +125,15 @@ func (gen *Generator) EmitType(td *sadl.TypeDef, errors map[string]bool) {
 		gen.EmitMapType(td)
 	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64":
 		name := td.Name
-		gen.Emit("type " + name + " " + sadl.Uncapitalize(td.Type) + "\n")
+		native := sadl.Uncapitalize(td.Type)
+		bits := strings.TrimLeft(native, "intfloa")
+		parse := "strconv.ParseInt(s, 10, " + bits + ")"
+		if strings.HasPrefix(native, "float") {
+			parse = "strconv.ParseFloat(s, " + bits + ")"
+		}
+		gen.Emit("type " + name + " " + native + "\n")
 		gen.addImport("strconv")
-		gen.Emit("func " + name + "FromString(s string) " + name + "{\n\tn, err := strconv.ParseInt(s, 10, 64)\n\tif err != nil {\n\t\treturn 0\n\t}\n\treturn n\n}\n")
+		gen.Emit("func " + name + "FromString(s string) " + name + "{\n\tn, err := " + parse + "\n\tif err != nil {\n\t\treturn 0\n\t}\n\treturn " + name + "(n)\n}\n")
 
 		//	case "Int32":
 		//		gen.Emit("type " + td.Name + " int\n")
-- 
2.43.0


From 4f97de5b8bdef644c27beff458c5a630f7f69181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:20 +0000
Subject: [PATCH 052/197] fix: generate Go types for actions without an
 expected response, instead of crashing

---
 golang/golang_model.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 6571001..80606bb 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -80,8 +80,10 @@ func (gen *Generator) EmitResponseType(hd *sadl.HttpDef) {
 	}
 	td.Type = "Struct"
 	fields := make([]*sadl.StructFieldDef, 0)
-	for _, p := range hd.Expected.Outputs {
-		fields = append(fields, &p.StructFieldDef)
+	if hd.Expected != nil {
+		for _, p := range hd.Expected.Outputs {
+			fields = append(fields, &p.StructFieldDef)
+		}
 	}
 	td.Fields = fields
 	gen.EmitStructType(td, nil)
-- 
2.43.0


From 22665ea07cf6954dbe54c1096cdbb19a89531883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:21 +0000
Subject: [PATCH 053/197] fix: generate Go code that compiles for fields of
 type UUID, Bytes, Any and unnamed structs, and refuse what is not supported

---
 golang/export_golang.go | 22 +++++++++++++++++++++-
 golang/golang_model.go  | 22 ++++++++++++++--------
 2 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/golang/export_golang.go b/golang/export_golang.go
index f5a9f01..0e5e4d3 100644
--- a/golang/export_golang.go
+++ b/golang/export_golang.go
@@ -171,6 +171,12 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 	switch name {
 	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Bool", "String":
 		return uncapitalize(name)
+	case "UUID":
+		return "string"
+	case "Bytes":
+		return "[]byte"
+	case "Any":
+		return "interface{}"
 	case "Decimal":
 		if gen.runtime {
 			gen.addImport("github.com/boynton/sadl")
@@ -181,9 +187,15 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 			return "*" + name
 		}
 	case "Array":
+		if ts.Items == "" {
+			return "[]interface{}"
+		}
 		its := gen.Model.FindType(ts.Items)
 		return "[]" + gen.nativeTypeName(&its.TypeSpec, ts.Items)
 	case "Map":
+		if ts.Items == "" {
+			return "map[string]interface{}"
+		}
 		its := gen.Model.FindType(ts.Items)
 		kts := gen.Model.FindType(ts.Keys)
 		return "map[" + gen.nativeTypeName(&kts.TypeSpec, ts.Keys) + "]" + gen.nativeTypeName(&its.TypeSpec, ts.Items)
@@ -200,9 +212,17 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 			gen.addImport("github.com/boynton/sadl")
 			return "*sadl." + name
 		} else {
-			//FIXME
+			gen.Err = fmt.Errorf("Go generator: UnitValue is only supported with the sadl runtime")
 			return "*" + name
 		}
+	case "Struct":
+		if len(ts.Fields) == 0 {
+			return "map[string]interface{}"
+		}
+		return "*struct {\n" + gen.structFields(ts.Fields) + "}"
+	case "Enum", "Union":
+		gen.Err = fmt.Errorf("Go generator: unnamed %s types are not supported", name)
+		return name
 	default:
 		//must be a app-defined class. Parser should have already verified its existence
 		td := gen.Model.FindType(name)
diff --git a/golang/golang_model.go b/golang/golang_model.go
index 80606bb..124c567 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -160,7 +160,18 @@ func (gen *Generator) EmitMapType(td *sadl.TypeDef) {
 
 func (gen *Generator) EmitStructType(td *sadl.TypeDef, errors map[string]bool) {
 	gen.Emit("type " + td.Name + " struct {\n")
-	for _, fd := range td.Fields {
+	gen.Emit(gen.structFields(td.Fields))
+	gen.Emit("}\n\n")
+	if errors != nil {
+		if _, ok := errors[td.Name]; ok {
+			gen.Emit("func (e *" + td.Name + ") Error() string {\n\treturn \"" + td.Name + "\"\n}\n\n")
+		}
+	}
+}
+
+func (gen *Generator) structFields(fields []*sadl.StructFieldDef) string {
+	s := ""
+	for _, fd := range fields {
 		fname := capitalize(fd.Name)
 		ftype := gen.nativeTypeName(&fd.TypeSpec, fd.Type)
 		anno := " `json:\"" + fd.Name
@@ -168,14 +179,9 @@ func (gen *Generator) EmitStructType(td *sadl.TypeDef, errors map[string]bool) {
 			anno = anno + ",omitempty"
 		}
 		anno = anno + "\"`"
-		gen.Emit("    " + fname + " " + ftype + anno + "\n")
-	}
-	gen.Emit("}\n\n")
-	if errors != nil {
-		if _, ok := errors[td.Name]; ok {
-			gen.Emit("func (e *" + td.Name + ") Error() string {\n\treturn \"" + td.Name + "\"\n}\n\n")
-		}
+		s = s + "    " + fname + " " + ftype + anno + "\n"
 	}
+	return s
 }
 
 func (gen *Generator) EmitUnionType(td *sadl.TypeDef, errors map[string]bool) {
-- 
2.43.0


From 42500620221c594a9b5d7f05456a5f16c366c9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:21 +0000
Subject: [PATCH 054/197] fix: encode Go types derived from Decimal as numbers,
 and support those derived from Timestamp

---
 golang/golang_model.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 124c567..aa1f5ae 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -118,9 +118,9 @@ func (gen *Generator) EmitType(td *sadl.TypeDef, errors map[string]bool) {
 		gen.Emit("type " + td.Name + " string\n")
 	case "UUID":
 		gen.Emit("type " + td.Name + " string //UUID\n")
-	case "Decimal":
-		gen.Emit("type " + td.Name + " Decimal\n")
-		gen.createDecimal = true
+	case "Decimal", "Timestamp":
+		//an alias, so that the methods, for JSON in particular, are those of the base type
+		gen.Emit("type " + td.Name + " = " + gen.nativeTypeName(&td.TypeSpec, td.Type) + "\n")
 	case "Array":
 		gen.EmitArrayType(td)
 	case "Map":
-- 
2.43.0


From 8746411463ac1505e015b62cc7d14e813107bab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:21 +0000
Subject: [PATCH 055/197] fix: generate Go types derived from Bool, Bytes and
 Any, and report unsupported ones as errors, instead of crashing

---
 golang/golang_model.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index aa1f5ae..0d01339 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -139,10 +139,10 @@ func (gen *Generator) EmitType(td *sadl.TypeDef, errors map[string]bool) {
 
 		//	case "Int32":
 		//		gen.Emit("type " + td.Name + " int\n")
+	case "Bool", "Bytes", "Any":
+		gen.Emit("type " + td.Name + " " + gen.nativeTypeName(&td.TypeSpec, td.Type) + "\n")
 	default:
-		fmt.Println(td.Type)
-		panic("EmitType NYI: " + td.Type)
-		//do nothing, i.e. a String subclass
+		gen.Err = fmt.Errorf("Go generator: type not supported: %s", td.Type)
 	}
 
 }
@@ -427,5 +427,5 @@ func ParseTimestamp(s string) (Timestamp, error) {
 `
 
 func (gen *Generator) EmitUnitValueType(td *sadl.TypeDef) {
-	panic("emitUnitValueType NYI")
+	gen.Emit("type " + td.Name + " = " + gen.nativeTypeName(&td.TypeSpec, td.Type) + "\n")
 }
-- 
2.43.0


From fb21b4f95ecf0ad853a7b8c9806f2346d7f5aff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:21 +0000
Subject: [PATCH 056/197] fix: refer to Go unions by pointer, so that recursive
 unions and those used as exceptions compile

---
 golang/export_golang.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golang/export_golang.go b/golang/export_golang.go
index 0e5e4d3..9fde0bf 100644
--- a/golang/export_golang.go
+++ b/golang/export_golang.go
@@ -229,7 +229,7 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 		if td == nil {
 			panic("Unresolved type, parser should have caught this: " + name)
 		}
-		if td.Type == "Struct" {
+		if td.Type == "Struct" || td.Type == "Union" {
 			name = "*" + name
 		}
 		return name
-- 
2.43.0


From 1a6c533e8c143cde5898e332cb8d27e84b3fdf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:21 +0000
Subject: [PATCH 057/197] fix: read JSON numbers into generated Go Decimals
 without loss of precision

---
 golang/golang_model.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 0d01339..8d4f15e 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -300,10 +300,10 @@ func (d *Decimal) UnmarshalJSON(b []byte) error {
 			return nil
 		}
 	} else {
-		var floatRepr float64
-		err = json.Unmarshal(b, &floatRepr)
+		var num *Decimal
+		num, err = ParseDecimal(string(b))
 		if err == nil {
-         *d = *NewDecimal(floatRepr)
+			*d = *num
 			return nil
 		}
 	}
-- 
2.43.0


From 739824a33b19981713942df147b8f756cb1d4e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:21 +0000
Subject: [PATCH 058/197] fix: print generated Go timestamps in UTC and with a
 four digit year

---
 golang/golang_model.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 8d4f15e..f308413 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -372,12 +372,13 @@ type Timestamp struct {
 	time.Time
 }
 
-const RFC3339Milli = "%d-%02d-%02dT%02d:%02d:%02d.%03dZ"
+const RFC3339Milli = "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ"
 
 func (ts Timestamp) String() string {
 	if ts.IsZero() {
 		return ""
 	}
+	ts.Time = ts.UTC()
 	return fmt.Sprintf(RFC3339Milli, ts.Year(), ts.Month(), ts.Day(), ts.Hour(), ts.Minute(), ts.Second(), ts.Nanosecond()/1000000)
 }
 
-- 
2.43.0


From c2ebaa0bf9d5bcf11c46156a49cbc85f21eef8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:10 +0000
Subject: [PATCH 059/197] fix: generate Go types for the enums of struct
 fields, instead of referring to an undefined one

---
 golang/export_golang.go |  3 ++-
 golang/golang_model.go  | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/golang/export_golang.go b/golang/export_golang.go
index 9fde0bf..fefabc8 100644
--- a/golang/export_golang.go
+++ b/golang/export_golang.go
@@ -42,6 +42,7 @@ type Generator struct {
 	runtime         bool
 	pkgpath         string
 	imports         []string
+	inlineEnums     []*sadl.TypeDef
 	buf             *bytes.Buffer
 	file            *os.File
 	writer          *bufio.Writer
@@ -219,7 +220,7 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 		if len(ts.Fields) == 0 {
 			return "map[string]interface{}"
 		}
-		return "*struct {\n" + gen.structFields(ts.Fields) + "}"
+		return "*struct {\n" + gen.structFields("", ts.Fields) + "}"
 	case "Enum", "Union":
 		gen.Err = fmt.Errorf("Go generator: unnamed %s types are not supported", name)
 		return name
diff --git a/golang/golang_model.go b/golang/golang_model.go
index f308413..a3d78bf 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -101,6 +101,9 @@ func (gen *Generator) EmitTypeDefs() {
 	for _, td := range gen.Model.Types {
 		gen.EmitType(td, errors)
 	}
+	for _, td := range gen.inlineEnums {
+		gen.EmitType(td, errors)
+	}
 }
 
 func (gen *Generator) EmitType(td *sadl.TypeDef, errors map[string]bool) {
@@ -160,7 +163,7 @@ func (gen *Generator) EmitMapType(td *sadl.TypeDef) {
 
 func (gen *Generator) EmitStructType(td *sadl.TypeDef, errors map[string]bool) {
 	gen.Emit("type " + td.Name + " struct {\n")
-	gen.Emit(gen.structFields(td.Fields))
+	gen.Emit(gen.structFields(td.Name, td.Fields))
 	gen.Emit("}\n\n")
 	if errors != nil {
 		if _, ok := errors[td.Name]; ok {
@@ -169,11 +172,17 @@ func (gen *Generator) EmitStructType(td *sadl.TypeDef, errors map[string]bool) {
 	}
 }
 
-func (gen *Generator) structFields(fields []*sadl.StructFieldDef) string {
+func (gen *Generator) structFields(owner string, fields []*sadl.StructFieldDef) string {
 	s := ""
 	for _, fd := range fields {
 		fname := capitalize(fd.Name)
-		ftype := gen.nativeTypeName(&fd.TypeSpec, fd.Type)
+		var ftype string
+		if fd.Type == "Enum" && owner != "" {
+			ftype = owner + fname
+			gen.inlineEnums = append(gen.inlineEnums, &sadl.TypeDef{Name: ftype, TypeSpec: fd.TypeSpec})
+		} else {
+			ftype = gen.nativeTypeName(&fd.TypeSpec, fd.Type)
+		}
 		anno := " `json:\"" + fd.Name
 		if !fd.Required {
 			anno = anno + ",omitempty"
-- 
2.43.0


From f39009be6f605bfae33dec4bc8aa3c09689a7545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:10 +0000
Subject: [PATCH 060/197] fix: encode Go enums that are the keys of maps by
 their symbol

---
 golang/golang_model.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index a3d78bf..4f52d4c 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -252,6 +252,20 @@ func (e {{.Name}}) String() string {
     return names{{.Name}}[e]
 }
 
+func (e {{.Name}}) MarshalText() ([]byte, error) {
+    return []byte(e.String()), nil
+}
+
+func (e *{{.Name}}) UnmarshalText(b []byte) error {
+    for v, s2 := range names{{.Name}} {
+        if v > 0 && string(b) == s2 {
+            *e = {{.Name}}(v)
+            return nil
+        }
+    }
+    return fmt.Errorf("Bad enum symbol for type {{.Name}}: %s", string(b))
+}
+
 func (e {{.Name}}) MarshalJSON() ([]byte, error) {
     return json.Marshal(e.String())
 }
-- 
2.43.0


From 358bfb46ded185275b071c6dbf407d8f61cf52f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:10 +0000
Subject: [PATCH 061/197] fix: generate Go server handlers that compile for
 every combination of parameters, bodies and outputs

---
 golang/golang_server.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index 83ffab9..381550e 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -76,7 +76,7 @@ func (gen *Generator) EmitServerAdaptor() {
 			}
 			s := ""
 			if form {
-				s = "\terr := r.ParseForm()\n\tif err != nil {\n\t\terrorResponse(w, 400, fmt.Sprint(err))\n\t\treturn\n\t}\n"
+				s = "\tif err := r.ParseForm(); err != nil {\n\t\terrorResponse(w, 400, fmt.Sprint(err))\n\t\treturn\n\t}\n"
 			}
 			for _, in := range hd.Inputs {
 				name := sadl.Capitalize(in.Name)
@@ -87,8 +87,7 @@ func (gen *Generator) EmitServerAdaptor() {
 				} else if in.Path {
 					s = s + "\treq." + name + " = " + gen.paramAccessor(in, fmt.Sprintf("mux.Vars(r)[%q]", in.Name)) + "\n"
 				} else {
-					s = s + "\terr := json.NewDecoder(r.Body).Decode(&req." + name + ")\n"
-					s = s + "\tif err != nil {\n\t\terrorResponse(w, 400, fmt.Sprint(err))\n\t\treturn\n\t}\n"
+					s = s + "\tif err := json.NewDecoder(r.Body).Decode(&req." + name + "); err != nil {\n\t\terrorResponse(w, 400, fmt.Sprint(err))\n\t\treturn\n\t}\n"
 				}
 			}
 			return s
@@ -112,12 +111,10 @@ func (gen *Generator) EmitServerAdaptor() {
 			return s
 		},
 		"expectedResult": func(hd *sadl.HttpDef) string {
-			switch hd.Expected.Status {
-			case 204, 304:
+			if hd.Expected == nil || len(hd.Expected.Outputs) == 0 {
 				return "_"
-			default:
-				return "res"
 			}
+			return "res"
 		},
 		"expectedEntity": func(hd *sadl.HttpDef) string {
 			for _, out := range hd.Expected.Outputs {
-- 
2.43.0


From 397baa07cf707706fbf6e458fed2e5805c8ed098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:10 +0000
Subject: [PATCH 062/197] fix: generate Go server handlers for actions without
 an expected response, instead of crashing

---
 golang/golang_server.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index 381550e..4550964 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -94,6 +94,9 @@ func (gen *Generator) EmitServerAdaptor() {
 		},
 		"outputs": func(hd *sadl.HttpDef) string {
 			s := ""
+			if hd.Expected == nil {
+				return s
+			}
 			for _, out := range hd.Expected.Outputs {
 				name := sadl.Capitalize(out.Name)
 				if out.Header != "" {
@@ -117,6 +120,9 @@ func (gen *Generator) EmitServerAdaptor() {
 			return "res"
 		},
 		"expectedEntity": func(hd *sadl.HttpDef) string {
+			if hd.Expected == nil {
+				return "nil"
+			}
 			for _, out := range hd.Expected.Outputs {
 				name := sadl.Capitalize(out.Name)
 				if out.Header == "" {
@@ -125,6 +131,12 @@ func (gen *Generator) EmitServerAdaptor() {
 			}
 			return "nil"
 		},
+		"expectedStatus": func(hd *sadl.HttpDef) int32 {
+			if hd.Expected == nil {
+				return 200
+			}
+			return hd.Expected.Status
+		},
 		"signature": func(hd *sadl.HttpDef) string {
 			name := gen.Capitalize(hd.Name)
 			reqType := gen.RequestTypeName(hd)
@@ -234,7 +246,7 @@ func (handler *{{adaptorName}}) {{methodName .}}Handler(w http.ResponseWriter, r
 			jsonResponse(w, 500, &serverError{Message: fmt.Sprint(err)})
 		}
 	} else {
-{{outputs .}}		jsonResponse(w, {{.Expected.Status}}, {{expectedEntity .}})
+{{outputs .}}		jsonResponse(w, {{expectedStatus .}}, {{expectedEntity .}})
 	}
 }
 {{end}}
-- 
2.43.0


From 69d67f86abf3cddae87b17325f0f5e8633dd5769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:10 +0000
Subject: [PATCH 063/197] fix: define the Timestamp type that generated Go
 servers use

---
 golang/golang_model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 4f52d4c..2f36c1e 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -15,7 +15,7 @@ func (gen *Generator) CreateModel() {
 	gen.Begin()
 	gen.EmitInterface()
 	gen.EmitTypeDefs()
-	if gen.createTimestamp {
+	if gen.createTimestamp || gen.createServer {
 		gen.EmitTimestamp()
 	}
 	if gen.createDecimal {
-- 
2.43.0


From 64f409f5816d3c48416d972ab0ccab2620690a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:10 +0000
Subject: [PATCH 064/197] fix: honour the default values of timestamp, string
 and integer parameters in Go servers

---
 golang/golang_server.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index 4550964..cec5d3e 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -202,6 +202,8 @@ func stringDefault(any interface{}) string {
 	switch v := any.(type) {
 	case string:
 		return v
+	case *string:
+		return *v
 	default:
 		return fmt.Sprint(any)
 	}
@@ -210,12 +212,14 @@ func stringDefault(any interface{}) string {
 func timestampDefault(any interface{}) string {
 	switch v := any.(type) {
 	case *sadl.Timestamp:
-		return fmt.Sprintf("%q", v.String())
+		return fmt.Sprintf("TimestampFromString(%q)", v.String())
 	case string:
 		ts, err := sadl.ParseTimestamp(v)
 		if err == nil {
-			return fmt.Sprintf("%q", ts.String())
+			return fmt.Sprintf("TimestampFromString(%q)", ts.String())
 		}
+	case *string:
+		return timestampDefault(*v)
 	}
 	return "nil"
 }
@@ -225,6 +229,8 @@ func intDefault(v interface{}) int64 {
 		switch n := v.(type) {
 		case *sadl.Decimal:
 			return n.AsInt64()
+		case float64:
+			return int64(n)
 		}
 	}
 	return 0
-- 
2.43.0


From 2337f6e3dbc04b97c940f6a4731f2e2b2924bdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:10 +0000
Subject: [PATCH 065/197] fix: support Bool and floating point parameters in Go
 servers, and refuse others instead of crashing

---
 golang/golang_server.go | 42 +++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index cec5d3e..f9b303f 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -169,13 +169,13 @@ func (gen *Generator) paramAccessor(in *sadl.HttpParamSpec, v string) string {
 			vv = fmt.Sprintf("%s(%s)", coerceTo, vv)
 		}
 		return vv
-		/*
-			case "Float32", "Float64":
-			case "Decimal":
-			case "UUID":
-		*/
+	case "Float32", "Float64":
+		return fmt.Sprintf("%s(floatParam(%s, %v))", coerceTo, v, floatDefault(in.Default))
+	case "Bool":
+		return fmt.Sprintf("%s(boolParam(%s, %v))", coerceTo, v, sadl.AsBool(in.Default))
 	default:
-		panic("Fix this: " + in.Type)
+		gen.Err = fmt.Errorf("Go generator: parameters of type %s are not supported: %s", in.Type, in.Name)
+		return v
 	}
 }
 
@@ -236,6 +236,16 @@ func intDefault(v interface{}) int64 {
 	return 0
 }
 
+func floatDefault(v interface{}) float64 {
+	switch n := v.(type) {
+	case *sadl.Decimal:
+		return n.AsFloat64()
+	case float64:
+		return n
+	}
+	return 0
+}
+
 var serverTemplate = `
 type {{adaptorName}} struct {
 	impl {{serviceName}}
@@ -304,6 +314,26 @@ func intParam(val string, def int64) int64 {
 	return def
 }
 
+func floatParam(val string, def float64) float64 {
+	if val != "" {
+		n, err := strconv.ParseFloat(val, 64)
+		if err == nil {
+			return n
+		}
+	}
+	return def
+}
+
+func boolParam(val string, def bool) bool {
+	if val != "" {
+		b, err := strconv.ParseBool(val)
+		if err == nil {
+			return b
+		}
+	}
+	return def
+}
+
 func Pretty(obj interface{}) string {
 	buf := new(bytes.Buffer)
 	enc := json.NewEncoder(buf)
-- 
2.43.0


From b41e7e96737dc105bf4041a3455ca88219172ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:19 +0000
Subject: [PATCH 066/197] fix: name the Go client after its service, and not
 after an example

---
 golang/golang_client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 24ff55a..2c33435 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -164,8 +164,8 @@ type {{clientName}} struct {
 	Target string
 }
 
-func NewClient(target string) (*CrudlClient, error) {
-	return &CrudlClient{
+func NewClient(target string) (*{{clientName}}, error) {
+	return &{{clientName}}{
 		Target: target,
 	}, nil
 }
-- 
2.43.0


From 4a9915a6892afd8a6d67bb01e45d210415c9530a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:19 +0000
Subject: [PATCH 067/197] fix: generate Go clients that compile without the
 server, and for models without actions

---
 golang/golang_client.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 2c33435..b54ac1b 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -23,10 +23,13 @@ func (gen *Generator) CreateClient() {
 
 func (gen *Generator) EmitClient() {
 	gen.imports = nil
+	gen.addImport("bytes")
 	gen.addImport("encoding/json")
 	gen.addImport("fmt")
+	gen.addImport("io")
 	gen.addImport("net/http")
-	//	gen.addImport("net/url")
+	gen.addImport("net/url")
+	gen.addImport("strconv")
 	gen.addImport("strings")
 	//	gen.addImport("time")
 	funcMap := template.FuncMap{
@@ -50,8 +53,7 @@ func (gen *Generator) EmitClient() {
 			case "PUT", "POST", "PATCH":
 				for _, in := range hd.Inputs {
 					if !in.Path && in.Query == "" && in.Header == "" {
-						gen.addImport("bytes")
-						return "bytes.NewReader([]byte(Json(req." + sadl.Capitalize(in.Name) + ")))"
+						return "clientEntity(req." + sadl.Capitalize(in.Name) + ")"
 					}
 				}
 			}
@@ -193,5 +195,18 @@ func (client *{{clientName}}) {{methodSignature .}} {
    return nil,fmt.Errorf("whoops")
 }
 {{end}}
+func clientEntity(obj interface{}) io.Reader {
+	buf := new(bytes.Buffer)
+	enc := json.NewEncoder(buf)
+	enc.SetEscapeHTML(false)
+	enc.Encode(obj)
+	return buf
+}
+
+var _ = fmt.Sprint
+var _ = http.NewRequest
+var _ = strings.Join
+var _ = strconv.Itoa
+var _ = url.QueryEscape
 
 `
-- 
2.43.0


From 8d8dbb81a9cd004792d4bb5e7a1e8b00b9006f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:19 +0000
Subject: [PATCH 068/197] fix: send path, query and header parameters from Go
 clients, under their own names and escaped

---
 golang/golang_client.go | 56 +++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index b54ac1b..1187dfc 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -63,8 +63,19 @@ func (gen *Generator) EmitClient() {
 			s := ""
 			for _, in := range hd.Inputs {
 				if in.Query != "" {
-					s = s + "\tif req." + sadl.Capitalize(in.Name) + " != " + gen.notSet(in.Type) + " {\n"
-					s = s + "\t\targs = append(args, fmt.Sprintf(\"" + in.Name + "=" + gen.typeFormat(in.Type) + "\", req." + sadl.Capitalize(in.Name) + "))\n"
+					s = s + "\tif req." + sadl.Capitalize(in.Name) + " != " + gen.notSet(in) + " {\n"
+					s = s + "\t\targs = append(args, " + fmt.Sprintf("%q", in.Query+"=") + " + url.QueryEscape(fmt.Sprint(req." + sadl.Capitalize(in.Name) + ")))\n"
+					s = s + "\t}\n"
+				}
+			}
+			return s
+		},
+		"headerParams": func(hd *sadl.HttpDef) string {
+			s := ""
+			for _, in := range hd.Inputs {
+				if in.Header != "" {
+					s = s + "\tif req." + sadl.Capitalize(in.Name) + " != " + gen.notSet(in) + " {\n"
+					s = s + "\t\threq.Header.Set(" + fmt.Sprintf("%q", in.Header) + ", fmt.Sprint(req." + sadl.Capitalize(in.Name) + "))\n"
 					s = s + "\t}\n"
 				}
 			}
@@ -80,6 +91,13 @@ func (gen *Generator) EmitClient() {
 			if i >= 0 {
 				path = path[0:i]
 			}
+			path = fmt.Sprintf("%q", path)
+			for _, in := range hd.Inputs {
+				if in.Path {
+					gen.notSet(in) //refuses unsupported types
+					path = strings.Replace(path, "{"+in.Name+"}", "\" + url.PathEscape(fmt.Sprint(req."+sadl.Capitalize(in.Name)+")) + \"", -1)
+				}
+			}
 			return path
 		},
 		"expectedResults": func(hd *sadl.HttpDef) string {
@@ -131,33 +149,21 @@ func (gen *Generator) EmitClient() {
 	gen.EmitTemplate("client", clientTemplate, gen, funcMap)
 }
 
-func (gen *Generator) notSet(sadlType string) string {
-	bt := gen.baseType(sadlType)
-	switch bt {
-	case "String":
+func (gen *Generator) notSet(in *sadl.HttpParamSpec) string {
+	switch gen.baseType(in.Type) {
+	case "String", "UUID":
 		return `""`
 	case "Int8", "Int16", "Int32", "Int64":
 		return "0"
-	case "Float32", "Float64", "Decimal":
+	case "Float32", "Float64":
 		return "0.0"
 	case "Bool":
 		return "false"
-	default:
+	case "Timestamp":
 		return "nil"
-	}
-}
-
-func (gen *Generator) typeFormat(sadlType string) string {
-	bt := gen.baseType(sadlType)
-	switch bt {
-	case "String":
-		return "%s"
-	case "Int8", "Int16", "Int32", "Int64":
-		return "%d"
-	case "Float32", "Float64", "Decimal":
-		return "&g"
 	default:
-		return "%v"
+		gen.Err = fmt.Errorf("Go generator: parameters of type %s are not supported: %s", in.Type, in.Name)
+		return "nil"
 	}
 }
 
@@ -173,17 +179,17 @@ func NewClient(target string) (*{{clientName}}, error) {
 }
 {{range .Model.Http}}
 func (client *{{clientName}}) {{methodSignature .}} {
-	url := client.Target + "{{methodPath .}}"
+	target := client.Target + {{methodPath .}}
 	var args []string
 {{queryParams .}}	if len(args) > 0 {
-		url = url + "?" + strings.Join(args, "&")
+		target = target + "?" + strings.Join(args, "&")
 	}
-	hreq, err := http.NewRequest("{{.Method}}", url, {{reqBodyReader .}})
+	hreq, err := http.NewRequest("{{.Method}}", target, {{reqBodyReader .}})
 	if err != nil {
 		return nil, err
 	}
 {{requestEntityContentType .}}
-	res, err := http.DefaultClient.Do(hreq)
+{{headerParams .}}	res, err := http.DefaultClient.Do(hreq)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 10089f353564e7fdd35bd26730fe2f292df6e72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:19 +0000
Subject: [PATCH 069/197] fix: convert response headers to their types in Go
 clients

---
 golang/golang_client.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 1187dfc..0807037 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -120,10 +120,19 @@ func (gen *Generator) EmitClient() {
 					s = s + "\t\tresponse." + name + " = entity\n"
 				} else {
 					i := "res.Header.Get(" + fmt.Sprintf("%q", out.Header) + ")" //fold header name consistently?
-					switch natType {
-					case "*Timestamp":
+					switch gen.baseType(out.Type) {
+					case "Timestamp":
 						i = "TimestampFromString(" + i + ")"
+					case "String", "UUID":
+						i = natType + "(" + i + ")"
+					case "Int8", "Int16", "Int32", "Int64":
+						i = natType + "(clientInt(" + i + "))"
+					case "Float32", "Float64":
+						i = natType + "(clientFloat(" + i + "))"
+					case "Bool":
+						i = natType + "(" + i + " == \"true\")"
 					default:
+						gen.Err = fmt.Errorf("Go generator: headers of type %s are not supported: %s", out.Type, out.Name)
 					}
 					s = s + "\t\tresponse." + name + " = " + i + "\n"
 				}
@@ -209,10 +218,19 @@ func clientEntity(obj interface{}) io.Reader {
 	return buf
 }
 
+func clientInt(s string) int64 {
+	n, _ := strconv.ParseInt(s, 10, 64)
+	return n
+}
+
+func clientFloat(s string) float64 {
+	n, _ := strconv.ParseFloat(s, 64)
+	return n
+}
+
 var _ = fmt.Sprint
 var _ = http.NewRequest
 var _ = strings.Join
-var _ = strconv.Itoa
 var _ = url.QueryEscape
 
 `
-- 
2.43.0


From 1fd839f8053f1e864d60011a31ff84706b5f0009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:19 +0000
Subject: [PATCH 070/197] fix: generate Go clients for actions without an
 expected response, instead of crashing

---
 golang/golang_client.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 0807037..7219cad 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -101,14 +101,18 @@ func (gen *Generator) EmitClient() {
 			return path
 		},
 		"expectedResults": func(hd *sadl.HttpDef) string {
-			s := fmt.Sprintf("\tcase %d:\n", hd.Expected.Status)
+			expected := hd.Expected
+			if expected == nil {
+				expected = &sadl.HttpExpectedSpec{Status: 200}
+			}
+			s := fmt.Sprintf("\tcase %d:\n", expected.Status)
 			//			if hd.Expected.Status == 204 || hd.Expected.Status == 304 {
 			//				if len(hd.Expected.Outputs) == 0 {
 			//					return s + "\t\treturn nil, nil\n"
 			//				}
 			//			}
 			s = s + "\t\tresponse := &" + sadl.Capitalize(hd.Name) + "Response{}\n"
-			for _, out := range hd.Expected.Outputs {
+			for _, out := range expected.Outputs {
 				natType := gen.nativeType(out.Type)
 				name := sadl.Capitalize(out.Name)
 				if out.Header == "" {
-- 
2.43.0


From 917668ea97ddb551db32b0ec0b42ae5eb4d9c478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:19 +0000
Subject: [PATCH 071/197] fix: refuse exceptions that Go code cannot throw,
 instead of generating code that does not compile

---
 golang/golang_client.go | 3 +++
 golang/golang_server.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 7219cad..7a08fa5 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -147,6 +147,9 @@ func (gen *Generator) EmitClient() {
 		"exceptionResults": func(hd *sadl.HttpDef) string {
 			s := ""
 			for _, es := range hd.Exceptions {
+				if bt := gen.baseType(es.Type); bt != "Struct" && bt != "Union" {
+					gen.Err = fmt.Errorf("Go generator: exceptions of type %s are not supported: %s", es.Type, hd.Name)
+				}
 				natType := gen.nativeType(es.Type)
 				s = s + fmt.Sprintf("\tcase %d:\n", es.Status)
 				s = s + "\t\tvar errEntity " + natType + "\n"
diff --git a/golang/golang_server.go b/golang/golang_server.go
index f9b303f..070a0f6 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -108,6 +108,9 @@ func (gen *Generator) EmitServerAdaptor() {
 		"exceptions": func(hd *sadl.HttpDef) string {
 			s := ""
 			for _, e := range hd.Exceptions {
+				if bt := gen.baseType(e.Type); bt != "Struct" && bt != "Union" {
+					gen.Err = fmt.Errorf("Go generator: exceptions of type %s are not supported: %s", e.Type, hd.Name)
+				}
 				s = s + "\t\tcase " + gen.nativeType(e.Type) + ":\n"
 				s = s + fmt.Sprintf("\t\t\tjsonResponse(w, %d, err)\n", e.Status)
 			}
-- 
2.43.0


From c942d2578862314f5b681377b44d1acbef1b8a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:31 +0000
Subject: [PATCH 072/197] fix: leave out absent timestamp headers in Go
 servers, instead of sending <nil> or crashing

---
 golang/golang_server.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index 070a0f6..3bb8c44 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -100,7 +100,7 @@ func (gen *Generator) EmitServerAdaptor() {
 			for _, out := range hd.Expected.Outputs {
 				name := sadl.Capitalize(out.Name)
 				if out.Header != "" {
-					s = s + "\t\tw.Header().Add(\"" + out.Header + "\", normalizeHeaderValue(\"" + out.Header + "\", res." + name + "))\n"
+					s = s + "\t\tif v := normalizeHeaderValue(\"" + out.Header + "\", res." + name + "); v != \"\" {\n\t\t\tw.Header().Add(\"" + out.Header + "\", v)\n\t\t}\n"
 				}
 			}
 			return s
@@ -369,6 +369,9 @@ func errorResponse(w http.ResponseWriter, status int, message string) {
 }
 
 func normalizeHeaderValue(key string, value interface{}) string {
+   if ts, ok := value.(*Timestamp); ok && ts == nil {
+      return ""
+   }
    switch strings.ToLower(key) {
    case "last-modified", "date", "expires":
       switch ts := value.(type) {
-- 
2.43.0


From b1dd4bb52e07c5fd89496d3948c391ab2e47df32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:25 +0000
Subject: [PATCH 073/197] fix: generate Go servers that compile for models
 without actions

---
 golang/golang_server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index 3bb8c44..fc05dfc 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -279,6 +279,7 @@ func InitServer(impl {{serviceName}}, baseURL string) http.Handler {
       log.Fatal(err)
    }	
    b := u.Path
+	_, _ = adaptor, b //not used if there are no actions
 	r := mux.NewRouter()
 {{range .Model.Http}}
 	r.HandleFunc(b+"{{routePath .}}", func (w http.ResponseWriter, r *http.Request) {
-- 
2.43.0


From 5ff2f156fef4a60249a80b111db71afe0156ea9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:29 +0000
Subject: [PATCH 074/197] fix: export types derived from UUID and Timestamp to
 GraphQL, and report those it cannot express as errors, instead of crashing

---
 graphql/export_graphql.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index 192d6a6..1b67d04 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -11,8 +11,7 @@ import (
 func Export(model *sadl.Model, conf *sadl.Data) error {
 	s, err := FromSadl(model, conf)
 	if err != nil {
-		panic(fmt.Sprintf("*** %v\n", err))
-		//		return err
+		return err
 	}
 	fmt.Print(s)
 	return nil
@@ -41,12 +40,12 @@ func FromSadl(model *sadl.Model, conf *sadl.Data) (string, error) {
 			err = w.EmitStructDef(td)
 		case "Union":
 			err = w.EmitUnionDef(td)
-		case "String", "Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
+		case "String", "Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "UUID", "Timestamp":
 			//these get replace by the equivalent type, you cannot "subtype" thesein GraphQL
 		case "Array":
 			//skip these. All references to it should be replaced with literal GraphQL list syntax.
 		default:
-			panic("fixme: " + td.Type)
+			err = fmt.Errorf("Type cannot be expressed in GraphQL: %s (%s)", td.Name, td.Type)
 		}
 		if err != nil {
 			return "", err
-- 
2.43.0


From 78b31c671baefc2a377e3ffe7789b8a45b603525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:29 +0000
Subject: [PATCH 075/197] fix: export the items of GraphQL lists as GraphQL
 types, and refuse field types that cannot be expressed instead of naming
 undefined ones

---
 graphql/export_graphql.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index 1b67d04..dac9a09 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -98,7 +98,10 @@ func (w *GraphqlWriter) EmitStructDef(td *sadl.TypeDef) error {
 			//TO DO: format as block before the field
 			w.Emit("  # %s\n", fd.Comment)
 		}
-		ftype := w.typeRef(&fd.TypeSpec)
+		ftype, err := w.typeRef(&fd.TypeSpec, 0)
+		if err != nil {
+			return fmt.Errorf("Field %s.%s: %v", td.Name, fd.Name, err)
+		}
 		w.Emit("  %s: %s%s\n", fd.Name, ftype, required)
 	}
 	w.Emit("}\n\n")
@@ -133,26 +136,36 @@ func (w *GraphqlWriter) scalarType(name string) string {
 	}
 }
 
-func (w *GraphqlWriter) typeRef(ts *sadl.TypeSpec) string {
+func (w *GraphqlWriter) typeRef(ts *sadl.TypeSpec, depth int) (string, error) {
 	if td, ok := w.arrays[ts.Type]; ok {
 		ts = &td.TypeSpec
 	}
 	tsName := w.scalarType(ts.Type)
 	if tsName != "" {
-		return tsName
+		return tsName, nil
 	}
 	switch ts.Type {
 	case "Array":
-		return fmt.Sprintf("[%s!]", ts.Items)
+		if depth > len(w.arrays) {
+			return "", fmt.Errorf("Recursive array types cannot be expressed in GraphQL")
+		}
+		items, err := w.typeRef(&sadl.TypeSpec{Type: ts.Items}, depth+1)
+		if err != nil {
+			return "", err
+		}
+		return fmt.Sprintf("[%s!]", items), nil
 	default:
 		td := w.model.FindType(ts.Type)
 		if td != nil {
 			tsName = w.scalarType(td.Type)
 			if tsName != "" {
-				return tsName
+				return tsName, nil
+			}
+			if td.Name != td.Type && (td.Type == "Struct" || td.Type == "Enum" || td.Type == "Union") {
+				return ts.Type, nil
 			}
 		}
-		return ts.Type
+		return "", fmt.Errorf("Type cannot be expressed in GraphQL: %s", ts.Type)
 	}
 }
 
-- 
2.43.0


From dc70c36bb52a4e8f1742dfb16bee6d25df934cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:29 +0000
Subject: [PATCH 076/197] fix: refuse to export unions of anything but structs
 to GraphQL, which has none

---
 graphql/export_graphql.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index dac9a09..2500d92 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -178,6 +178,9 @@ func (w *GraphqlWriter) EmitUnionDef(td *sadl.TypeDef) error {
 			w.Emit("    ")
 		}
 		vtype := uv.Type
+		if vtd := w.model.FindType(vtype); vtd == nil || vtd.Type != "Struct" || vtd.Name == "Struct" {
+			return fmt.Errorf("Union %s: variants of type %s cannot be expressed in GraphQL", td.Name, vtype)
+		}
 		w.Emit("%s\n", vtype)
 	}
 	w.Emit("\n")
-- 
2.43.0


From 50a220cc21ffac257c208c324858bdfb705fded6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:29 +0000
Subject: [PATCH 077/197] fix: export custom GraphQL scalars in a fixed order

---
 graphql/export_graphql.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index 2500d92..923345b 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"fmt"
+	"sort"
 
 	"github.com/boynton/sadl"
 )
@@ -51,7 +52,12 @@ func FromSadl(model *sadl.Model, conf *sadl.Data) (string, error) {
 			return "", err
 		}
 	}
+	scalars := make([]string, 0)
 	for k, _ := range w.customScalars {
+		scalars = append(scalars, k)
+	}
+	sort.Strings(scalars)
+	for _, k := range scalars {
 		w.Emit("scalar %s\n", k)
 	}
 	return w.End(), nil
-- 
2.43.0


From 1439324368cf1b271a768ee0ac2695b00ac21cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:29 +0000
Subject: [PATCH 078/197] fix: keep every line of a field's comment a comment
 when exporting to GraphQL

---
 graphql/export_graphql.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index 923345b..1682655 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"sort"
+	"strings"
 
 	"github.com/boynton/sadl"
 )
@@ -102,7 +103,7 @@ func (w *GraphqlWriter) EmitStructDef(td *sadl.TypeDef) error {
 		}
 		if fd.Comment != "" {
 			//TO DO: format as block before the field
-			w.Emit("  # %s\n", fd.Comment)
+			w.Emit("  # %s\n", strings.Replace(fd.Comment, "\n", "\n  # ", -1))
 		}
 		ftype, err := w.typeRef(&fd.TypeSpec, 0)
 		if err != nil {
-- 
2.43.0


From ef68f38f5cf0eadbe238c1b7abacb6279e3710b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:29 +0000
Subject: [PATCH 079/197] fix: report nested GraphQL lists as errors when
 importing, instead of crashing or losing their items

---
 graphql/import_graphql.go | 56 +++++++++++----------------------------
 1 file changed, 15 insertions(+), 41 deletions(-)

diff --git a/graphql/import_graphql.go b/graphql/import_graphql.go
index e269216..ac2d52e 100644
--- a/graphql/import_graphql.go
+++ b/graphql/import_graphql.go
@@ -105,17 +105,6 @@ func gqlSchema(doc *gql_ast.Document, conf *sadl.Data) (*sadl.Schema, error) {
 	return schema, nil
 }
 
-func typeName(t gql_ast.Type) string {
-	switch tt := t.(type) {
-	case *gql_ast.Named:
-		return tt.Name.Value
-	case *gql_ast.List:
-		return "Array"
-	default:
-		panic("FixMe")
-	}
-}
-
 func convertTypeName(n string) string {
 	switch n {
 	case "Int":
@@ -202,42 +191,27 @@ func gqlStruct(schema *sadl.Schema, structDef *gql_ast.ObjectDefinition) error {
 			Name:    f.Name.Value,
 			Comment: commentValue(stringValue(f.Description)),
 		}
-		switch t := (*gql_ast.FieldDefinition)(fnode).Type.(type) {
+		ftype := f.Type
+		if t, ok := ftype.(*gql_ast.NonNull); ok {
+			fd.Required = true
+			ftype = t.Type
+		}
+		switch t := ftype.(type) {
 		case *gql_ast.Named:
 			fd.Type = convertTypeName(t.Name.Value)
 		case *gql_ast.List:
 			fd.Type = "Array"
-			switch it := t.Type.(type) {
-			case *gql_ast.Named:
-				fd.Items = convertTypeName(it.Name.Value)
-			case *gql_ast.NonNull:
-				switch it := it.Type.(type) {
-				case *gql_ast.Named:
-					fd.Items = convertTypeName(it.Name.Value)
-				default:
-					panic("inline list type not supported")
-				}
-			default:
-				panic("list type not supported")
+			itype := t.Type
+			if it, ok := itype.(*gql_ast.NonNull); ok {
+				itype = it.Type
 			}
-		case *gql_ast.NonNull:
-			fd.Required = true
-			switch t := t.Type.(type) {
-			case *gql_ast.Named:
-				fd.Type = convertTypeName(t.Name.Value)
-			case *gql_ast.List:
-				fd.Type = "Array"
-				switch it := t.Type.(type) {
-				case *gql_ast.Named:
-					fd.Items = convertTypeName(it.Name.Value)
-				case *gql_ast.NonNull:
-					fd.Items = convertTypeName(typeName(it.Type))
-				default:
-					panic("inline list type not supported")
-				}
-			default:
-				fd.Type = convertTypeName(typeName(t))
+			it, ok := itype.(*gql_ast.Named)
+			if !ok {
+				return fmt.Errorf("Field %s.%s: nested list types are not supported", td.Name, fd.Name)
 			}
+			fd.Items = convertTypeName(it.Name.Value)
+		default:
+			return fmt.Errorf("Field %s.%s: type not supported", td.Name, fd.Name)
 		}
 		td.Fields = append(td.Fields, fd)
 	}
-- 
2.43.0


From aa39697c3bd1ee241f948ad3d899da1f19b378fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:29 +0000
Subject: [PATCH 080/197] fix: skip the operation types of a GraphQL schema
 wherever it is defined in the document

---
 graphql/import_graphql.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/graphql/import_graphql.go b/graphql/import_graphql.go
index ac2d52e..f2623e2 100644
--- a/graphql/import_graphql.go
+++ b/graphql/import_graphql.go
@@ -67,6 +67,14 @@ func gqlSchema(doc *gql_ast.Document, conf *sadl.Data) (*sadl.Schema, error) {
 		},
 	}
 	schema.Types = append(schema.Types, td)
+	for _, def := range doc.Definitions {
+		if sdef, ok := def.(*gql_ast.SchemaDefinition); ok {
+			for _, opt := range sdef.OperationTypes {
+				iname := (*gql_ast.Named)(opt.Type).Name.Value
+				ignore[iname] = true
+			}
+		}
+	}
 	for _, def := range doc.Definitions {
 		switch tdef := def.(type) {
 		case *gql_ast.ObjectDefinition:
@@ -74,10 +82,7 @@ func gqlSchema(doc *gql_ast.Document, conf *sadl.Data) (*sadl.Schema, error) {
 				err = gqlStruct(schema, tdef)
 			}
 		case *gql_ast.SchemaDefinition:
-			for _, opt := range tdef.OperationTypes {
-				iname := (*gql_ast.Named)(opt.Type).Name.Value
-				ignore[iname] = true
-			}
+			//already handled above
 		case *gql_ast.EnumDefinition:
 			err = gqlEnum(schema, tdef)
 		case *gql_ast.UnionDefinition:
-- 
2.43.0


From 8817fb1a2a74c8e6cf33f2347dda79a5b478e66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:20 +0000
Subject: [PATCH 081/197] fix: refuse GraphQL documents that refer to types
 they do not define, when importing

---
 graphql/import_graphql.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/graphql/import_graphql.go b/graphql/import_graphql.go
index f2623e2..0189023 100644
--- a/graphql/import_graphql.go
+++ b/graphql/import_graphql.go
@@ -44,7 +44,25 @@ func Import(paths []string, conf *sadl.Data) (*sadl.Model, error) {
 	if err != nil {
 		return nil, err
 	}
-	return sadl.NewModel(schema)
+	model, err := sadl.NewModel(schema)
+	if err != nil {
+		return nil, err
+	}
+	for _, td := range model.Types {
+		for _, fd := range td.Fields {
+			for _, ref := range []string{fd.Type, fd.Items} {
+				if ref != "" && model.FindType(ref) == nil {
+					return nil, fmt.Errorf("Field %s.%s: type not defined: %s", td.Name, fd.Name, ref)
+				}
+			}
+		}
+		for _, vd := range td.Variants {
+			if model.FindType(vd.Type) == nil {
+				return nil, fmt.Errorf("Union %s: type not defined: %s", td.Name, vd.Type)
+			}
+		}
+	}
+	return model, nil
 }
 
 func gqlSchema(doc *gql_ast.Document, conf *sadl.Data) (*sadl.Schema, error) {
-- 
2.43.0


From f6fc0d4d1dba152106482b052a7c7248972b053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:33 +0000
Subject: [PATCH 082/197] fix: the Java exporter imports the annotations it
 uses, and writes numeric bounds that compile

---
 java/export_java.go | 57 +++++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index f760c26..c70ade9 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -5,6 +5,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strconv"
 	"strings"
 	"text/template"
 
@@ -191,6 +192,7 @@ func (gen *Generator) CreatePojo(ts *sadl.TypeSpec, className, comment string, e
 	if gen.Err != nil {
 		return
 	}
+	gen.imports = nil
 	gen.Begin()
 	if comment != "" {
 		gen.Emit(gen.FormatComment("", comment, 100, false))
@@ -577,6 +579,7 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 
 func (gen *Generator) CreateUnitValuePojo(ts *sadl.TypeSpec, className string) {
 	gen.AddImport("javax.validation.constraints.NotNull")
+	gen.AddImport("com.fasterxml.jackson.annotation.JsonCreator")
 	gen.AddImport("com.fasterxml.jackson.annotation.JsonValue")
 	gen.Emit("public class " + className + " {\n\n")
 
@@ -654,12 +657,13 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 	var annotations []string
 	if required {
 		if isPrimitive {
-			return primitiveName, nil, nil
+			return primitiveName, gen.rangeAnnotations(ts, name), nil
 		}
 		gen.AddImport("javax.validation.constraints.NotNull")
 		annotations = append(annotations, "@NotNull")
 	} else {
 		if isPrimitive {
+			annotations = append(annotations, gen.rangeAnnotations(ts, name)...)
 			if primitiveName == "int" {
 				name = "Integer"
 			} else {
@@ -694,25 +698,10 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 		}
 		return "String", annotations, nil
 	case "Byte", "Short", "Integer", "Long", "Float", "Double":
-		if ts != nil {
-			if ts.Min != nil {
-				annotations = append(annotations, fmt.Sprintf("@Min(%s)", ts.Min.String()))
-			}
-			if ts.Max != nil {
-				annotations = append(annotations, fmt.Sprintf("@Max(%s)", ts.Max.String()))
-			}
-		}
 		return name, annotations, nil
 	case "Decimal":
 		gen.AddImport("java.math.BigDecimal")
-		if ts != nil {
-			if ts.Min != nil {
-				annotations = append(annotations, fmt.Sprintf("@DecimalMin(%q)", ts.Min.String()))
-			}
-			if ts.Max != nil {
-				annotations = append(annotations, fmt.Sprintf("@DecimalMax(%q)", ts.Max.String()))
-			}
-		}
+		annotations = append(annotations, gen.rangeAnnotations(ts, name)...)
 		return "BigDecimal", annotations, nil
 	case "Timestamp":
 		if gen.UseInstants {
@@ -771,12 +760,7 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 				return "UUID", annotations, nil
 			case "Decimal":
 				gen.AddImport("java.math.BigDecimal")
-				if td.Min != nil {
-					annotations = append(annotations, fmt.Sprintf("@DecimalMin(%q)", td.Min.String()))
-				}
-				if td.Max != nil {
-					annotations = append(annotations, fmt.Sprintf("@DecimalMax(%q)", td.Max.String()))
-				}
+				annotations = append(annotations, gen.rangeAnnotations(&td.TypeSpec, td.Type)...)
 				return "BigDecimal", annotations, nil
 			case "Timestamp":
 				if gen.UseInstants {
@@ -797,6 +781,33 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 	}
 }
 
+// rangeAnnotations returns the validation annotations for the min and max of a numeric type. The Min and Max
+// annotations take a long, so other bounds use DecimalMin and DecimalMax, which take a string.
+func (gen *Generator) rangeAnnotations(ts *sadl.TypeSpec, name string) []string {
+	if ts == nil {
+		return nil
+	}
+	var annotations []string
+	add := func(which string, bound *sadl.Decimal) {
+		if bound == nil {
+			return
+		}
+		switch name {
+		case "Int8", "Int16", "Int32", "Int64":
+			if n, err := strconv.ParseInt(bound.String(), 10, 64); err == nil {
+				gen.AddImport("javax.validation.constraints." + which)
+				annotations = append(annotations, fmt.Sprintf("@%s(%dL)", which, n))
+				return
+			}
+		}
+		gen.AddImport("javax.validation.constraints.Decimal" + which)
+		annotations = append(annotations, fmt.Sprintf("@Decimal%s(%q)", which, bound.String()))
+	}
+	add("Min", ts.Min)
+	add("Max", ts.Max)
+	return annotations
+}
+
 func javaPackageToPath(pkg string) string {
 	return strings.Join(strings.Split(pkg, "."), "/")
 }
-- 
2.43.0


From be1276caf6c9410630a1be942986a3de690a2899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:33 +0000
Subject: [PATCH 083/197] fix: required Java fields of named array and map
 types keep their NotNull annotation

---
 java/export_java.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index c70ade9..e73a494 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -748,9 +748,9 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 			case "String":
 				return gen.TypeName(&td.TypeSpec, "String", required)
 			case "Array":
-				return gen.TypeName(&td.TypeSpec, "Array", false) //FIXME: the "required/optional" state of the field is lost
+				return gen.TypeName(&td.TypeSpec, "Array", required)
 			case "Map":
-				return gen.TypeName(&td.TypeSpec, "Map", false) //FIXME: the "required/optional" state of the field is lost
+				return gen.TypeName(&td.TypeSpec, "Map", required)
 			case "Struct":
 				if name == "Struct" {
 					return name, annotations, ts
-- 
2.43.0


From d48e461e53af4a9814777d68026042663c8eabf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:06 +0000
Subject: [PATCH 084/197] fix: the Java classes of types defined in place are
 generated and used in every class member

---
 java/export_java.go | 89 ++++++++++++++++++++++++++++++---------------
 1 file changed, 59 insertions(+), 30 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index e73a494..cb99aa6 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -201,7 +201,7 @@ func (gen *Generator) CreatePojo(ts *sadl.TypeSpec, className, comment string, e
 	case "Struct":
 		gen.CreateStructPojo(ts, className, "", exceptions)
 	case "UnitValue":
-		gen.CreateUnitValuePojo(ts, className)
+		gen.CreateUnitValuePojo(ts, className, "")
 	case "Enum":
 		gen.CreateEnumPojo(ts, className)
 	case "Union":
@@ -291,7 +291,7 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 	} else {
 		gen.Emit(indent + "public static class " + className + extends + " {\n")
 	}
-	nested := make(map[string]*sadl.TypeSpec, 0)
+	var nested []*nestedType
 	for _, fd := range ts.Fields {
 		fname := fd.Name
 		if reservedKeyword(fname) {
@@ -303,14 +303,13 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 		if !fd.Required {
 			gen.Emit(indent + "    @JsonInclude(JsonInclude.Include.NON_EMPTY) /* Optional field */\n")
 		}
-		tn, tanno, anonymous := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+		tn, tanno, anonymous := gen.FieldTypeName(fd)
 		if anonymous != nil {
-			tn = gen.Capitalize(fname)
 			if tn == className {
 				gen.Err = fmt.Errorf("Cannot have identically named inner class with same name as containing class: %q", tn)
 				return
 			}
-			nested[tn] = anonymous
+			nested = append(nested, &nestedType{tn, anonymous})
 		}
 		if tanno != nil {
 			for _, anno := range tanno {
@@ -343,19 +342,43 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
     }
 `)
 		}
-		if len(nested) > 0 {
-			for iname, ispec := range nested {
-				gen.CreateStructPojo(ispec, iname, indent+"    ", nil)
-			}
+		for _, n := range nested {
+			gen.CreateNestedPojo(n, indent+"    ")
 		}
 	}
-	gen.Emit("}\n")
+	gen.Emit(indent + "}\n")
+}
+
+// nestedType is the type of a field that is defined in place, so its class goes inside the class of the field.
+type nestedType struct {
+	name string
+	spec *sadl.TypeSpec
+}
+
+func (gen *Generator) CreateNestedPojo(n *nestedType, indent string) {
+	switch n.spec.Type {
+	case "Enum":
+		gen.CreateEnumPojo(n.spec, n.name)
+	case "UnitValue":
+		gen.CreateUnitValuePojo(n.spec, n.name, "static ")
+	default:
+		gen.CreateStructPojo(n.spec, n.name, indent, nil)
+	}
+}
+
+// FieldTypeName returns what TypeName returns for the field, with the name of its class if the type is defined in place.
+func (gen *Generator) FieldTypeName(fd *sadl.StructFieldDef) (string, []string, *sadl.TypeSpec) {
+	tn, tanno, anonymous := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+	if anonymous != nil {
+		tn = gen.Capitalize(fd.Name)
+	}
+	return tn, tanno, anonymous
 }
 
 func (gen *Generator) EmitAllFieldsConstructor(className string, ts *sadl.TypeSpec, indent string) {
 	var args []string
 	for _, fd := range ts.Fields {
-		tn, _, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+		tn, _, _ := gen.FieldTypeName(fd)
 		args = append(args, tn+" "+fd.Name)
 	}
 	gen.Emit(indent + "    public " + className + "(" + strings.Join(args, ", ") + ") {\n")
@@ -366,7 +389,7 @@ func (gen *Generator) EmitAllFieldsConstructor(className string, ts *sadl.TypeSp
 }
 
 func (gen *Generator) EmitGetter(className string, ts *sadl.TypeSpec, fd *sadl.StructFieldDef, indent string) {
-	tn, _, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+	tn, _, _ := gen.FieldTypeName(fd)
 	gen.Emit(indent + "    public " + tn + " get" + gen.Capitalize(fd.Name) + "() {\n")
 	gen.Emit(indent + "        return " + fd.Name + ";\n")
 	gen.Emit(indent + "    }\n\n")
@@ -383,7 +406,7 @@ func (gen *Generator) EmitBuilder(className string, ts *sadl.TypeSpec, indent st
 	gen.Emit(indent + "@JsonPOJOBuilder(withPrefix=\"\")\n")
 	gen.Emit(indent + "public static class " + builderClass + " {\n")
 	for _, fd := range ts.Fields {
-		tn, _, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+		tn, _, _ := gen.FieldTypeName(fd)
 		gen.Emit(indent + "    private " + tn + " " + fd.Name + ";\n")
 	}
 	gen.Emit("\n")
@@ -396,7 +419,7 @@ func (gen *Generator) EmitBuilder(className string, ts *sadl.TypeSpec, indent st
 	gen.Emit(indent + "    }\n\n")
 	var args []string
 	for _, fd := range ts.Fields {
-		tn, _, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+		tn, _, _ := gen.FieldTypeName(fd)
 		if fd.Type == "Timestamp" {
 			if gen.UseInstants {
 				gen.NeedUtil = true
@@ -457,6 +480,10 @@ func (gen *Generator) CreateEnumPojo(ts *sadl.TypeSpec, className string) {
 	gen.Emit("}\n")
 }
 
+func (gen *Generator) variantTypeName(vd *sadl.UnionVariantDef) (string, []string, *sadl.TypeSpec) {
+	return gen.FieldTypeName(&sadl.StructFieldDef{Name: vd.Name, TypeSpec: vd.TypeSpec})
+}
+
 func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 	indent0 := ""
 	indent1 := indent0 + "    "
@@ -498,21 +525,20 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 	gen.Emit(indent1 + "}\n\n")
 	gen.Emit(indent1 + "@JsonIgnore\n")
 	gen.Emit(indent1 + "public " + variantType + " variant;\n\n")
-	nested := make(map[string]*sadl.TypeSpec, 0)
+	var nested []*nestedType
 	for _, vd := range td.Variants {
 		gen.Emit(indent1 + "@JsonInclude(JsonInclude.Include.NON_EMPTY)\n")
 
 		if vd.Comment != "" {
 			gen.Emit(gen.FormatComment(indent1, vd.Comment, 100, false))
 		}
-		tn, tanno, anonymous := gen.TypeName(&vd.TypeSpec, vd.Type, false)
+		tn, tanno, anonymous := gen.variantTypeName(vd)
 		if anonymous != nil {
-			tn = gen.Capitalize(vd.Name)
 			if tn == className {
 				gen.Err = fmt.Errorf("Cannot have identically named inner class with same name as containing class: %q", tn)
 				return
 			}
-			nested[tn] = anonymous
+			nested = append(nested, &nestedType{tn, anonymous})
 		}
 		if tanno != nil {
 			for _, anno := range tanno {
@@ -530,7 +556,7 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 		if i == max-1 {
 			delim = ""
 		}
-		tn, _, _ := gen.TypeName(&vd.TypeSpec, vd.Type, false)
+		tn, _, _ := gen.variantTypeName(vd)
 		gen.Emit("@JsonProperty(\"" + vd.Name + "\") " + tn + " " + vd.Name + delim)
 	}
 	gen.Emit(") {\n")
@@ -543,7 +569,7 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 	gen.Emit(indent1 + "}\n\n")
 
 	for _, vd := range td.Variants {
-		tn, _, _ := gen.TypeName(&vd.TypeSpec, vd.Type, false)
+		tn, _, _ := gen.variantTypeName(vd)
 		gen.Emit("\n" + indent1 + "public static " + className + " of" + gen.Capitalize(vd.Name) + "(" + tn + " v) {\n")
 		gen.Emit(indent2 + "return new " + className + "(")
 		delim = ", "
@@ -569,19 +595,17 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
     }
 `)
 	}
-	if len(nested) > 0 {
-		for iname, ispec := range nested {
-			gen.CreateStructPojo(ispec, iname, indent1, nil)
-		}
+	for _, n := range nested {
+		gen.CreateNestedPojo(n, indent1)
 	}
 	gen.Emit("}\n")
 }
 
-func (gen *Generator) CreateUnitValuePojo(ts *sadl.TypeSpec, className string) {
+func (gen *Generator) CreateUnitValuePojo(ts *sadl.TypeSpec, className string, modifier string) {
 	gen.AddImport("javax.validation.constraints.NotNull")
 	gen.AddImport("com.fasterxml.jackson.annotation.JsonCreator")
 	gen.AddImport("com.fasterxml.jackson.annotation.JsonValue")
-	gen.Emit("public class " + className + " {\n\n")
+	gen.Emit("public " + modifier + "class " + className + " {\n\n")
 
 	valueType, _, _ := gen.TypeName(ts, ts.Value, true) //this type must be  primitive numeric type
 	unitType, _, _ := gen.TypeName(ts, ts.Unit, true)
@@ -641,11 +665,8 @@ func (gen *Generator) EmitFluidSetter(className string, ts *sadl.TypeSpec, fd *s
 	if gen.Err != nil {
 		return
 	}
-	tn, _, anonymous := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+	tn, _, _ := gen.FieldTypeName(fd)
 	//fixme: the annotations are getting ignored. Figure out if this is preferred or not
-	if anonymous != nil {
-		tn = gen.Capitalize(fd.Name)
-	}
 	gen.Emit(indent + "    public " + className + " " + fd.Name + "(" + tn + " val) {\n")
 	gen.Emit(indent + "        this." + fd.Name + " = val;\n")
 	gen.Emit(indent + "        return this;\n")
@@ -753,6 +774,14 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 				return gen.TypeName(&td.TypeSpec, "Map", required)
 			case "Struct":
 				if name == "Struct" {
+					if ts == nil || len(ts.Fields) == 0 {
+						gen.AddImport("java.util.Map")
+						return "Map<String,Object>", annotations, nil
+					}
+					return name, annotations, ts
+				}
+			case "Enum", "UnitValue":
+				if name == td.Type && ts != nil {
 					return name, annotations, ts
 				}
 			case "UUID":
-- 
2.43.0


From 63550ac80538d0e9990f44af7ab001378bd3bc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:44 +0000
Subject: [PATCH 085/197] fix: the Bytes type, and named Bool, Bytes and Any
 types, have Java types

---
 java/export_java.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index cb99aa6..796247d 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -718,7 +718,7 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 			}
 		}
 		return "String", annotations, nil
-	case "Byte", "Short", "Integer", "Long", "Float", "Double":
+	case "Byte", "Short", "Integer", "Long", "Float", "Double", "Boolean":
 		return name, annotations, nil
 	case "Decimal":
 		gen.AddImport("java.math.BigDecimal")
@@ -757,6 +757,8 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 	case "UUID":
 		gen.AddImport("java.util.UUID")
 		return name, annotations, nil
+	case "Bytes":
+		return "byte[]", annotations, nil
 	case "Any":
 		return "Object", annotations, nil
 	default:
@@ -764,7 +766,7 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 		td := gen.Model.FindType(name)
 		if td != nil {
 			switch td.Type {
-			case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Boolean":
+			case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Bool", "Bytes", "Any":
 				return gen.TypeName(&td.TypeSpec, td.Type, required)
 			case "String":
 				return gen.TypeName(&td.TypeSpec, "String", required)
-- 
2.43.0


From 6c1361dfe5c6a8322b63ef56ba191cb2f0858f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:44 +0000
Subject: [PATCH 086/197] fix: the Java exporter does not crash on collections
 of unnamed or recursive element types

---
 java/export_java.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index 796247d..c45026a 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -39,6 +39,7 @@ type Generator struct {
 	NeedInstant      bool
 	NeedUtil         bool
 	imports          []string
+	expanding        []string
 	ServerData       *ServerData
 	ClientData       *ClientData
 }
@@ -741,18 +742,14 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 		if ts == nil {
 			return "List", annotations, nil
 		}
-		td := gen.Model.FindType(ts.Items)
-		items, _, _ := gen.TypeName(&td.TypeSpec, ts.Items, false)
-		return "List<" + items + ">", annotations, nil
+		return "List<" + gen.elementTypeName(ts.Items, "Any") + ">", annotations, nil
 	case "Map":
 		gen.AddImport("java.util.Map")
 		if ts == nil {
 			return "Map", annotations, nil
 		}
-		ktd := gen.Model.FindType(ts.Keys)
-		keys, _, _ := gen.TypeName(&ktd.TypeSpec, ts.Keys, false)
-		itd := gen.Model.FindType(ts.Items)
-		items, _, _ := gen.TypeName(&itd.TypeSpec, ts.Items, false)
+		keys := gen.elementTypeName(ts.Keys, "String")
+		items := gen.elementTypeName(ts.Items, "Any")
 		return "Map<" + keys + "," + items + ">", annotations, nil
 	case "UUID":
 		gen.AddImport("java.util.UUID")
@@ -812,6 +809,28 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 	}
 }
 
+// elementTypeName returns the Java type of the items or keys of a collection. Java has no names for collection types,
+// so a collection type that contains itself cannot be written.
+func (gen *Generator) elementTypeName(name string, defaultName string) string {
+	if name == "" {
+		name = defaultName
+	}
+	td := gen.Model.FindType(name)
+	if td == nil {
+		return name
+	}
+	for _, n := range gen.expanding {
+		if n == name {
+			gen.Err = fmt.Errorf("Cannot represent a collection type that contains itself: %q", name)
+			return "Object"
+		}
+	}
+	gen.expanding = append(gen.expanding, name)
+	tn, _, _ := gen.TypeName(&td.TypeSpec, name, false)
+	gen.expanding = gen.expanding[:len(gen.expanding)-1]
+	return tn
+}
+
 // rangeAnnotations returns the validation annotations for the min and max of a numeric type. The Min and Max
 // annotations take a long, so other bounds use DecimalMin and DecimalMax, which take a string.
 func (gen *Generator) rangeAnnotations(ts *sadl.TypeSpec, name string) []string {
-- 
2.43.0


From c57c3133894f40122d0d56c719977d6df940443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:44 +0000
Subject: [PATCH 087/197] fix: names that are Java keywords are reported as
 errors by the Java exporter

---
 java/export_java.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index c45026a..3996821 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -229,12 +229,23 @@ func (gen *Generator) CreatePojo(ts *sadl.TypeSpec, className, comment string, e
 
 func reservedKeyword(name string) bool {
 	switch name {
-	case "package":
+	case "abstract", "assert", "boolean", "break", "byte", "case", "catch", "char", "class", "const", "continue",
+		"default", "do", "double", "else", "enum", "extends", "final", "finally", "float", "for", "goto", "if",
+		"implements", "import", "instanceof", "int", "interface", "long", "native", "new", "package", "private",
+		"protected", "public", "return", "short", "static", "strictfp", "super", "switch", "synchronized", "this",
+		"throw", "throws", "transient", "try", "void", "volatile", "while", "true", "false", "null", "_":
 		return true
 	}
 	return false
 }
 
+func (gen *Generator) checkIdentifier(what, name string) bool {
+	if reservedKeyword(name) && gen.Err == nil {
+		gen.Err = fmt.Errorf("bad %s name, clashes with a keyword: %s", what, name)
+	}
+	return gen.Err == nil
+}
+
 func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, indent string, exceptions map[string]string) {
 	lombok := false
 	if _, ok := exceptions[className]; !ok {
@@ -295,8 +306,8 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 	var nested []*nestedType
 	for _, fd := range ts.Fields {
 		fname := fd.Name
-		if reservedKeyword(fname) {
-			panic("bad field name, clashes with a keyword: " + fname)
+		if !gen.checkIdentifier("field", fname) {
+			return
 		}
 		if fd.Comment != "" {
 			gen.Emit(gen.FormatComment(indent+"    ", fd.Comment, 100, false))
@@ -456,6 +467,9 @@ func (gen *Generator) CreateEnumPojo(ts *sadl.TypeSpec, className string) {
 			comment = gen.FormatComment(" ", el.Comment, 0, false)
 		}
 		sym := el.Symbol //strings.ToUpper(el.Symbol) ???
+		if !gen.checkIdentifier("enum element", sym) {
+			return
+		}
 		val := sadl.GetAnnotation(el.Annotations, "x_enumValue")
 		if val == "" {
 			val = sym
@@ -521,6 +535,9 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 		if i == max-1 {
 			delim = ""
 		}
+		if !gen.checkIdentifier("union variant", vd.Name) {
+			return
+		}
 		gen.Emit(indent2 + vd.Name + delim + "\n")
 	}
 	gen.Emit(indent1 + "}\n\n")
-- 
2.43.0


From 2ba7a58687233431294ce77b24365a2070414525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:44 +0000
Subject: [PATCH 088/197] fix: the message field of Java exception classes is
 part of their JSON representation

---
 java/export_java.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index 3996821..a2416dd 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -277,11 +277,18 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 	if extends != "" {
 		var ignoreFields []string
 		for _, f := range []string{"message", "stackTrace", "cause", "localizedMessage", "suppressed"} {
+			isField := false
 			for _, fd := range ts.Fields {
-				if fd.Name != f {
-					ignoreFields = append(ignoreFields, fmt.Sprintf("%q", f))
+				if fd.Name == f {
+					isField = true
 				}
 			}
+			if !isField {
+				ignoreFields = append(ignoreFields, fmt.Sprintf("%q", f))
+			} else if f != "message" {
+				gen.Err = fmt.Errorf("bad field name in exception type %s, clashes with a member of Throwable: %s", className, f)
+				return
+			}
 		}
 		gen.AddImport("com.fasterxml.jackson.annotation.JsonIgnoreProperties")
 		gen.Emit(indent + "@JsonIgnoreProperties({" + strings.Join(ignoreFields, ", ") + "})\n")
-- 
2.43.0


From a84de2cfc57b9d074298d6dd12a8e351d22b8286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:44 +0000
Subject: [PATCH 089/197] fix: Java getters keep the JSON name of fields with a
 second letter in upper case

---
 java/export_java.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/java/export_java.go b/java/export_java.go
index a2416dd..c6b5b18 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -8,6 +8,7 @@ import (
 	"strconv"
 	"strings"
 	"text/template"
+	"unicode"
 
 	"github.com/boynton/sadl"
 )
@@ -409,11 +410,26 @@ func (gen *Generator) EmitAllFieldsConstructor(className string, ts *sadl.TypeSp
 
 func (gen *Generator) EmitGetter(className string, ts *sadl.TypeSpec, fd *sadl.StructFieldDef, indent string) {
 	tn, _, _ := gen.FieldTypeName(fd)
+	if getterPropertyName(gen.Capitalize(fd.Name)) != fd.Name {
+		gen.AddImport("com.fasterxml.jackson.annotation.JsonProperty")
+		gen.Emit(indent + "    @JsonProperty(\"" + fd.Name + "\")\n")
+	}
 	gen.Emit(indent + "    public " + tn + " get" + gen.Capitalize(fd.Name) + "() {\n")
 	gen.Emit(indent + "        return " + fd.Name + ";\n")
 	gen.Emit(indent + "    }\n\n")
 }
 
+// getterPropertyName returns the JSON property name that Jackson derives from the name of a getter: all the leading
+// upper case letters are made lower case.
+func getterPropertyName(name string) string {
+	for i, ch := range name {
+		if unicode.ToLower(ch) == ch {
+			return strings.ToLower(name[:i]) + name[i:]
+		}
+	}
+	return strings.ToLower(name)
+}
+
 func (gen *Generator) EmitBuilder(className string, ts *sadl.TypeSpec, indent string) {
 	builderClass := className + "Builder"
 	gen.Emit(indent + "public " + builderClass + " toBuilder() {\n")
-- 
2.43.0


From 69e5efa08bfcaae1477b23791ca661e737f172ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:44 +0000
Subject: [PATCH 090/197] fix: the Java class of a UnitValue accepts units of
 named string types, and units with spaces

---
 java/export_java.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index c6b5b18..4f4d474 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -679,16 +679,14 @@ func (gen *Generator) CreateUnitValuePojo(ts *sadl.TypeSpec, className string, m
 		v = "new BigDecimal(tmp[0])"
 	}
 	u := "<bad unit type, must be enum or string>"
-	ut := gen.Model.FindType(unitType)
-	switch ut.Type {
-	case "String":
+	if unitType == "String" {
 		u = "tmp[1]"
-	case "Enum":
+	} else if ut := gen.Model.FindType(ts.Unit); ut != nil && ut.Type == "Enum" {
 		u = unitType + ".fromString(tmp[1])"
 	}
 	gen.Emit("    @JsonCreator\n")
 	gen.Emit("    public " + className + "(@NotNull String repr) {\n")
-	gen.Emit("        String[] tmp = repr.split(\" \");\n")
+	gen.Emit("        String[] tmp = repr.split(\" \", 2);\n")
 	gen.Emit("        this.value = " + v + ";\n")
 	gen.Emit("        this.unit = " + u + ";\n")
 	gen.Emit("    }\n\n")
-- 
2.43.0


From bb99deaf0b076e82161cbaf4475f9a97d26a5429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:17 +0000
Subject: [PATCH 091/197] fix: fields of Java exception classes that clash with
 Throwable override its methods, or are errors

---
 java/export_java.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index 4f4d474..7b67053 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -278,16 +278,19 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 	if extends != "" {
 		var ignoreFields []string
 		for _, f := range []string{"message", "stackTrace", "cause", "localizedMessage", "suppressed"} {
-			isField := false
+			fieldType := ""
 			for _, fd := range ts.Fields {
 				if fd.Name == f {
-					isField = true
+					fieldType, _, _ = gen.FieldTypeName(fd)
 				}
 			}
-			if !isField {
+			switch {
+			case fieldType == "":
 				ignoreFields = append(ignoreFields, fmt.Sprintf("%q", f))
-			} else if f != "message" {
-				gen.Err = fmt.Errorf("bad field name in exception type %s, clashes with a member of Throwable: %s", className, f)
+			case fieldType == "String" && (f == "message" || f == "localizedMessage"):
+				//overrides the method of Throwable
+			default:
+				gen.Err = fmt.Errorf("bad field in exception type %s, clashes with a method of Throwable: %s", className, f)
 				return
 			}
 		}
@@ -352,6 +355,9 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 		} else {
 			for _, fd := range ts.Fields {
 				gen.EmitFluidSetter(className, ts, fd, indent)
+				if extends != "" && (fd.Name == "message" || fd.Name == "localizedMessage") {
+					gen.EmitGetter(className, ts, fd, indent)
+				}
 			}
 		}
 		if gen.UseJsonPretty {
-- 
2.43.0


From 20834ad414db9ac6d4a5e191fe42f93674ffe2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:17 +0000
Subject: [PATCH 092/197] fix: the generated Java Timestamp class is in the
 package of the model that uses it

---
 java/java_timestamp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/java_timestamp.go b/java/java_timestamp.go
index ecfbb07..41048ea 100644
--- a/java/java_timestamp.go
+++ b/java/java_timestamp.go
@@ -50,7 +50,7 @@ func (gen *Generator) CreateTimestamp() {
 	gen.Emit(javaTimestamp)
 	result := gen.End()
 	if gen.Err == nil {
-		gen.WriteJavaFile("Timestamp", result, gen.Package)
+		gen.WriteJavaFile("Timestamp", result, gen.ModelPackage)
 	}
 }
 
-- 
2.43.0


From f5ee5609e2816b1925c8f66f7d78914d9089c188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:17 +0000
Subject: [PATCH 093/197] fix: Java classes can read and write the JSON of
 every field with timestamps in it

---
 java/export_java.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index 7b67053..502fd29 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -460,11 +460,10 @@ func (gen *Generator) EmitBuilder(className string, ts *sadl.TypeSpec, indent st
 	gen.Emit(indent + "    }\n\n")
 	var args []string
 	for _, fd := range ts.Fields {
-		tn, _, _ := gen.FieldTypeName(fd)
-		if fd.Type == "Timestamp" {
-			if gen.UseInstants {
-				gen.NeedUtil = true
-				gen.Emit(indent + "    @JsonDeserialize(using = Util.InstantDeserializer.class)\n")
+		tn, tanno, _ := gen.FieldTypeName(fd)
+		for _, anno := range tanno {
+			if strings.HasPrefix(anno, "@JsonDeserialize(") {
+				gen.Emit(indent + "    " + anno + "\n")
 			}
 		}
 		gen.Emit(indent + "    public " + builderClass + " " + fd.Name + "(" + tn + " " + fd.Name + ") {\n")
@@ -774,6 +773,7 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 			gen.AddImport("java.time.Instant")
 			gen.AddImport("com.fasterxml.jackson.databind.annotation.JsonSerialize")
 			gen.AddImport("com.fasterxml.jackson.databind.annotation.JsonDeserialize")
+			annotations = append(annotations, fmt.Sprintf("@JsonDeserialize(using = Util.InstantDeserializer.class)"))
 			annotations = append(annotations, fmt.Sprintf("@JsonSerialize(using = Util.InstantSerializer.class)"))
 			gen.NeedUtil = true
 			gen.NeedInstant = true
@@ -786,7 +786,8 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 		if ts == nil {
 			return "List", annotations, nil
 		}
-		return "List<" + gen.elementTypeName(ts.Items, "Any") + ">", annotations, nil
+		items := gen.elementTypeName(ts.Items, "Any")
+		return "List<" + items + ">", append(annotations, instantContentAnnotations(items)...), nil
 	case "Map":
 		gen.AddImport("java.util.Map")
 		if ts == nil {
@@ -794,7 +795,7 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 		}
 		keys := gen.elementTypeName(ts.Keys, "String")
 		items := gen.elementTypeName(ts.Items, "Any")
-		return "Map<" + keys + "," + items + ">", annotations, nil
+		return "Map<" + keys + "," + items + ">", append(annotations, instantContentAnnotations(items)...), nil
 	case "UUID":
 		gen.AddImport("java.util.UUID")
 		return name, annotations, nil
@@ -875,6 +876,17 @@ func (gen *Generator) elementTypeName(name string, defaultName string) string {
 	return tn
 }
 
+// instantContentAnnotations returns the annotations for a collection of the given Java type.
+func instantContentAnnotations(items string) []string {
+	if items != "Instant" {
+		return nil
+	}
+	return []string{
+		"@JsonDeserialize(contentUsing = Util.InstantDeserializer.class)",
+		"@JsonSerialize(contentUsing = Util.InstantSerializer.class)",
+	}
+}
+
 // rangeAnnotations returns the validation annotations for the min and max of a numeric type. The Min and Max
 // annotations take a long, so other bounds use DecimalMin and DecimalMax, which take a string.
 func (gen *Generator) rangeAnnotations(ts *sadl.TypeSpec, name string) []string {
-- 
2.43.0


From ff5ff63c3423ab94dc55c7a9da3a36ce902a076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:17 +0000
Subject: [PATCH 094/197] fix: Java unions keep empty strings and collections
 in their JSON representation

---
 java/export_java.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/export_java.go b/java/export_java.go
index 502fd29..b028332 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -573,7 +573,7 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 	gen.Emit(indent1 + "public " + variantType + " variant;\n\n")
 	var nested []*nestedType
 	for _, vd := range td.Variants {
-		gen.Emit(indent1 + "@JsonInclude(JsonInclude.Include.NON_EMPTY)\n")
+		gen.Emit(indent1 + "@JsonInclude(JsonInclude.Include.NON_NULL)\n")
 
 		if vd.Comment != "" {
 			gen.Emit(gen.FormatComment(indent1, vd.Comment, 100, false))
-- 
2.43.0


From 1c5951119b7c699fba8917cf315439a7f4375088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:17 +0000
Subject: [PATCH 095/197] fix: Java classes of unions that are used as
 exceptions can be thrown

---
 java/export_java.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index b028332..ea3a34b 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -207,7 +207,7 @@ func (gen *Generator) CreatePojo(ts *sadl.TypeSpec, className, comment string, e
 	case "Enum":
 		gen.CreateEnumPojo(ts, className)
 	case "Union":
-		gen.CreateUnionPojo(ts, className)
+		gen.CreateUnionPojo(ts, className, exceptions)
 	default:
 		//do nothing, i.e. a String subclass
 		return
@@ -527,7 +527,7 @@ func (gen *Generator) variantTypeName(vd *sadl.UnionVariantDef) (string, []strin
 	return gen.FieldTypeName(&sadl.StructFieldDef{Name: vd.Name, TypeSpec: vd.TypeSpec})
 }
 
-func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
+func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string, exceptions map[string]string) {
 	indent0 := ""
 	indent1 := indent0 + "    "
 	indent2 := indent1 + "    "
@@ -537,6 +537,11 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 	gen.AddImport("com.fasterxml.jackson.annotation.JsonCreator")
 	gen.AddImport("com.fasterxml.jackson.annotation.JsonProperty")
 	extends := ""
+	if _, ok := exceptions[className]; ok {
+		extends = " extends RuntimeException"
+		gen.AddImport("com.fasterxml.jackson.annotation.JsonIgnoreProperties")
+		gen.Emit("@JsonIgnoreProperties({\"message\", \"stackTrace\", \"cause\", \"localizedMessage\", \"suppressed\"})\n")
+	}
 	if indent0 == "" {
 		if gen.UseLombok {
 			gen.Emit("@Data\n")
-- 
2.43.0


From 9021e4fab10acd308c6dc2713585e7730bf41413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:35 +0000
Subject: [PATCH 096/197] fix: the Java server and client use the interface
 that is generated with the model

---
 java/java_client.go |  9 ++++++++-
 java/java_server.go | 10 +++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index a2fac2d..185161e 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -29,6 +29,9 @@ func (gen *Generator) CreateClient() {
 		return
 	}
 	gen.CreateClientDataAndFuncMap(src, rez)
+	if gen.Err != nil {
+		return
+	}
 	gen.CreateClientConfig()
 	gen.CreateJavaFileFromTemplate(gen.ClientData.Name, clientTemplate, gen.ClientData, gen.ClientData.Funcs, gen.ClientPackage)
 }
@@ -37,7 +40,11 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 	if gen.Err != nil {
 		return
 	}
-	serviceName := gen.Capitalize(gen.Model.Name)
+	if gen.Name == "" {
+		gen.Err = fmt.Errorf("Cannot generate a client without a name")
+		return
+	}
+	serviceName := gen.Name
 	rootPath := gen.Model.Base
 	if rootPath == "" {
 		rootPath = "/"
diff --git a/java/java_server.go b/java/java_server.go
index a63b750..ac522a8 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -45,6 +45,9 @@ func (gen *Generator) CreateServer() {
 		return
 	}
 	gen.CreateServerDataAndFuncMap(src, rez)
+	if gen.Err != nil {
+		return
+	}
 	gen.CreateJavaFileFromTemplate(gen.ServerData.ResourcesClass, resourcesTemplate, gen.ServerData, gen.ServerData.Funcs, gen.ServerPackage)
 	if gen.ServerImpl {
 		gen.CreateJavaFileFromTemplate(gen.ServerData.MainClass, mainTemplate, gen.ServerData, gen.ServerData.Funcs, "")
@@ -77,10 +80,11 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 	if gen.ServerData != nil {
 		return
 	}
-	if gen.Model.Name == "" {
-		panic("no model name!")
+	if gen.Name == "" {
+		gen.Err = fmt.Errorf("Cannot generate a service without a name")
+		return
 	}
-	serviceName := gen.Capitalize(gen.Model.Name)
+	serviceName := gen.Name
 	rootPath := gen.Model.Base
 	if rootPath == "" {
 		rootPath = "/"
-- 
2.43.0


From feed657518eb9e9103814575332c69e8259a0db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:35 +0000
Subject: [PATCH 097/197] fix: the Java exporter does not crash on actions
 without an expected result

---
 java/java_client.go | 10 +++++-----
 java/java_model.go  | 10 +++++++++-
 java/java_server.go | 16 ++++++++--------
 3 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index 185161e..a111d8f 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -62,7 +62,7 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 		return gen.RequestType(name)
 	}
 	entityNameType := func(hact *sadl.HttpDef) (string, string) {
-		for _, out := range hact.Expected.Outputs {
+		for _, out := range expected(hact).Outputs {
 			if out.Header == "" {
 				tn, _, _ := gen.TypeName(nil, out.Type, true)
 				return out.Name, tn
@@ -129,15 +129,15 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 				panic("fix me: method = " + hact.Method)
 			}
 			writer.WriteString("        switch (response.getStatus()) {\n")
-			writer.WriteString("        case " + fmt.Sprint(hact.Expected.Status) + ":\n")
-			if len(hact.Expected.Outputs) == 0 {
+			writer.WriteString("        case " + fmt.Sprint(expected(hact).Status) + ":\n")
+			if len(expected(hact).Outputs) == 0 {
 				writer.WriteString("            return null; //shoudn't this be void?!\n") //?
 			} else {
 				ename, etype := entityNameType(hact)
 				if etype != "void" {
 					writer.WriteString("            " + etype + " " + ename + " = response.readEntity(" + etype + ".class);\n")
 				}
-				for _, out := range hact.Expected.Outputs {
+				for _, out := range expected(hact).Outputs {
 					if out.Header != "" {
 						tn, _, _ := gen.TypeName(nil, out.Type, true)
 						osrc := fromString(tn, "response.getHeaderString(\""+out.Header+"\")")
@@ -149,7 +149,7 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 				if etype != "void" {
 					writer.WriteString("                ." + ename + "(" + ename + ")\n")
 				}
-				for _, out := range hact.Expected.Outputs {
+				for _, out := range expected(hact).Outputs {
 					if out.Header != "" {
 						writer.WriteString("                ." + out.Name + "(" + out.Name + ")\n")
 					}
diff --git a/java/java_model.go b/java/java_model.go
index 3c33589..4bb7428 100644
--- a/java/java_model.go
+++ b/java/java_model.go
@@ -30,8 +30,16 @@ func (gen *Generator) CreateModel() {
 	}
 }
 
+// expected returns the expected result of the action, which by default is an empty one
+func expected(hact *sadl.HttpDef) *sadl.HttpExpectedSpec {
+	if hact.Expected == nil {
+		return &sadl.HttpExpectedSpec{Status: 200}
+	}
+	return hact.Expected
+}
+
 func (gen *Generator) entityNameType(hact *sadl.HttpDef) (string, string) {
-	for _, out := range hact.Expected.Outputs {
+	for _, out := range expected(hact).Outputs {
 		if out.Header == "" {
 			tn, _, _ := gen.TypeName(nil, out.Type, true)
 			return out.Name, tn
diff --git a/java/java_server.go b/java/java_server.go
index ac522a8..1c5a992 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -103,7 +103,7 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 	gen.ServerData.InterfaceClass = serviceName
 	gen.ServerData.ImplClass = serviceName + "Controller" //add version here?
 	entityNameType := func(hact *sadl.HttpDef) (string, string) {
-		for _, out := range hact.Expected.Outputs {
+		for _, out := range expected(hact).Outputs {
 			if out.Header == "" {
 				tn, _, _ := gen.TypeName(nil, out.Type, true)
 				return out.Name, tn
@@ -248,7 +248,7 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 			}
 			writer.WriteString(";\n")
 			writer.WriteString("        try {\n")
-			if len(hact.Expected.Outputs) > 0 {
+			if len(expected(hact).Outputs) > 0 {
 				writer.WriteString("            " + resname + " res = " + implName(iname) + "." + name + "(req);\n")
 				wrappedResult := ""
 				if ename != "void" && ename != "" {
@@ -258,8 +258,8 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 						wrappedResult = gen.jsonWrapper(etype, "res."+ename)
 					}
 				}
-				ret := fmt.Sprintf("Response.status(%d)", +hact.Expected.Status)
-				for _, out := range hact.Expected.Outputs {
+				ret := fmt.Sprintf("Response.status(%d)", +expected(hact).Status)
+				for _, out := range expected(hact).Outputs {
 					if out.Header != "" {
 						ret = ret + ".header(\"" + out.Header + "\", res.get" + gen.Capitalize(out.Name) + "())"
 					}
@@ -270,7 +270,7 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 				writer.WriteString("            return " + ret + ".build();\n")
 			} else {
 				writer.WriteString("            " + implName(iname) + "." + name + "(req);\n")
-				writer.WriteString(fmt.Sprintf("            return Response.status(%d).build();\n", hact.Expected.Status))
+				writer.WriteString(fmt.Sprintf("            return Response.status(%d).build();\n", expected(hact).Status))
 			}
 
 			if gen.Config.GetBool("service-exception") {
@@ -432,7 +432,7 @@ func (gen *Generator) CreateRequestPojo(hact *sadl.HttpDef) {
 }
 
 func (gen *Generator) responsePojoName(hact *sadl.HttpDef) (string, bool) {
-	for _, out := range hact.Expected.Outputs {
+	for _, out := range expected(hact).Outputs {
 		if out.Header == "" {
 			tn, _, _ := gen.TypeName(nil, out.Type, true)
 			return tn, false
@@ -449,7 +449,7 @@ func (gen *Generator) CreateResponsePojo(hact *sadl.HttpDef) {
 	ts := &sadl.TypeSpec{
 		Type: "Struct",
 	}
-	for _, spec := range hact.Expected.Outputs {
+	for _, spec := range expected(hact).Outputs {
 		ts.Fields = append(ts.Fields, &spec.StructFieldDef)
 	}
 	gen.CreatePojo(ts, className, "", nil)
@@ -464,7 +464,7 @@ func (gen *Generator) ActionInfo(hact *sadl.HttpDef) (string, string) {
 			}
 		}
 	default:
-		for _, out := range hact.Expected.Outputs {
+		for _, out := range expected(hact).Outputs {
 			if out.Header == "" {
 				return out.Name, out.Type
 			}
-- 
2.43.0


From 98e18a967b22910739157474cfc405a08124aaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:10 +0000
Subject: [PATCH 098/197] fix: Java servers and clients declare parameters of
 collection, Decimal and in-place types

---
 java/java_client.go | 12 +++---------
 java/java_model.go  | 20 ++++++++++++++++++--
 java/java_server.go | 24 +++---------------------
 3 files changed, 24 insertions(+), 32 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index a111d8f..f680137 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -61,15 +61,7 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 	reqType := func(name string) string {
 		return gen.RequestType(name)
 	}
-	entityNameType := func(hact *sadl.HttpDef) (string, string) {
-		for _, out := range expected(hact).Outputs {
-			if out.Header == "" {
-				tn, _, _ := gen.TypeName(nil, out.Type, true)
-				return out.Name, tn
-			}
-		}
-		return "", "void"
-	}
+	entityNameType := gen.entityNameType
 	fromString := func(typename, val string) string {
 		switch typename {
 		case "Instant":
@@ -190,7 +182,9 @@ public interface ClientConfig {
 
 const clientTemplate = `
 {{if .ModelPackage}}import {{.ModelPackage}}.*;{{end}}
+import java.math.BigDecimal;
 import java.time.Instant;
+import java.util.*;
 import javax.ws.rs.client.Client;
 import javax.ws.rs.client.ClientBuilder;
 import javax.ws.rs.client.Entity;
diff --git a/java/java_model.go b/java/java_model.go
index 4bb7428..a1b6a08 100644
--- a/java/java_model.go
+++ b/java/java_model.go
@@ -41,13 +41,29 @@ func expected(hact *sadl.HttpDef) *sadl.HttpExpectedSpec {
 func (gen *Generator) entityNameType(hact *sadl.HttpDef) (string, string) {
 	for _, out := range expected(hact).Outputs {
 		if out.Header == "" {
-			tn, _, _ := gen.TypeName(nil, out.Type, true)
-			return out.Name, tn
+			return out.Name, gen.outputTypeName(hact, out, true)
 		}
 	}
 	return "", "void"
 }
 
+func (gen *Generator) inputTypeName(hact *sadl.HttpDef, in *sadl.HttpParamSpec, required bool) string {
+	return gen.paramTypeName(gen.RequestType(gen.ActionName(hact)), in, required)
+}
+
+func (gen *Generator) outputTypeName(hact *sadl.HttpDef, out *sadl.HttpParamSpec, required bool) string {
+	return gen.paramTypeName(gen.ResponseType(gen.ActionName(hact)), out, required)
+}
+
+// paramTypeName returns the Java type of a parameter. The class of a type defined in place is inside the given one.
+func (gen *Generator) paramTypeName(className string, param *sadl.HttpParamSpec, required bool) string {
+	tn, _, anonymous := gen.TypeName(&param.TypeSpec, param.Type, required)
+	if anonymous != nil {
+		tn = className + "." + gen.Capitalize(param.Name)
+	}
+	return tn
+}
+
 func (gen *Generator) CreateInterface() {
 	if gen.Err != nil {
 		return
diff --git a/java/java_server.go b/java/java_server.go
index 1c5a992..d57c8d1 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -102,15 +102,7 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 
 	gen.ServerData.InterfaceClass = serviceName
 	gen.ServerData.ImplClass = serviceName + "Controller" //add version here?
-	entityNameType := func(hact *sadl.HttpDef) (string, string) {
-		for _, out := range expected(hact).Outputs {
-			if out.Header == "" {
-				tn, _, _ := gen.TypeName(nil, out.Type, true)
-				return out.Name, tn
-			}
-		}
-		return "", "void"
-	}
+	entityNameType := gen.entityNameType
 	reqType := func(name string) string {
 		return gen.RequestType(name)
 	}
@@ -195,8 +187,7 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 			name := gen.ActionName(hact) //i.e. "getFoo"
 			var params []string
 			for _, in := range hact.Inputs {
-				tn, _, _ := gen.TypeName(nil, in.Type, false)
-				param := tn + " " + in.Name
+				param := gen.inputTypeName(hact, in, false) + " " + in.Name
 				if in.Query != "" {
 					param = `@QueryParam("` + in.Query + `") ` + param
 				} else if in.Header != "" {
@@ -376,6 +367,7 @@ public class {{.MainClass}} {
 
 const resourcesTemplate = `
 {{if .ModelPackage}}import {{.ModelPackage}}.*;{{end}}
+import java.math.BigDecimal;
 import java.util.*;
 import java.time.Instant;
 import javax.inject.Inject;
@@ -431,16 +423,6 @@ func (gen *Generator) CreateRequestPojo(hact *sadl.HttpDef) {
 	gen.CreatePojo(ts, className, "", nil)
 }
 
-func (gen *Generator) responsePojoName(hact *sadl.HttpDef) (string, bool) {
-	for _, out := range expected(hact).Outputs {
-		if out.Header == "" {
-			tn, _, _ := gen.TypeName(nil, out.Type, true)
-			return tn, false
-		}
-	}
-	return "void", false
-}
-
 func (gen *Generator) CreateResponsePojo(hact *sadl.HttpDef) {
 	if gen.Err != nil {
 		return
-- 
2.43.0


From 980fbb9cca3a285ba9a17dd6f08d02166a6c9e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:10 +0000
Subject: [PATCH 099/197] fix: Java model classes can have the names of classes
 that servers and clients import on demand

---
 java/java_client.go |  6 +++---
 java/java_model.go  | 16 ++++++++++++++++
 java/java_server.go |  6 +++---
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index f680137..ffb5ba9 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -72,7 +72,8 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 	}
 
 	funcMap := template.FuncMap{
-		"openBrace": func() string { return "{" },
+		"openBrace":    func() string { return "{" },
+		"modelImports": gen.ModelImports,
 		"handlerSig": func(hact *sadl.HttpDef) string {
 			name := gen.ActionName(hact)
 			resType := gen.ResponseType(gen.ActionName(hact))
@@ -181,8 +182,7 @@ public interface ClientConfig {
 `
 
 const clientTemplate = `
-{{if .ModelPackage}}import {{.ModelPackage}}.*;{{end}}
-import java.math.BigDecimal;
+{{modelImports}}import java.math.BigDecimal;
 import java.time.Instant;
 import java.util.*;
 import javax.ws.rs.client.Client;
diff --git a/java/java_model.go b/java/java_model.go
index a1b6a08..564ba30 100644
--- a/java/java_model.go
+++ b/java/java_model.go
@@ -30,6 +30,22 @@ func (gen *Generator) CreateModel() {
 	}
 }
 
+// ModelImports returns the import directives for the classes of the model. They are imported one by one, because of
+// two classes with the same name in packages imported on demand, neither can be used.
+func (gen *Generator) ModelImports() string {
+	if gen.ModelPackage == "" {
+		return ""
+	}
+	s := "import " + gen.ModelPackage + ".*;\n"
+	for _, td := range gen.Model.Types {
+		switch td.Type {
+		case "Struct", "UnitValue", "Enum", "Union":
+			s = s + "import " + gen.ModelPackage + "." + gen.Capitalize(td.Name) + ";\n"
+		}
+	}
+	return s
+}
+
 // expected returns the expected result of the action, which by default is an empty one
 func expected(hact *sadl.HttpDef) *sadl.HttpExpectedSpec {
 	if hact.Expected == nil {
diff --git a/java/java_server.go b/java/java_server.go
index d57c8d1..e3bf30c 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -114,7 +114,8 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 	}
 
 	funcMap := template.FuncMap{
-		"openBrace": func() string { return "{" },
+		"openBrace":    func() string { return "{" },
+		"modelImports": gen.ModelImports,
 		"methodPath": func(hact *sadl.HttpDef) string {
 			path := hact.Path
 			i := strings.Index(path, "?")
@@ -366,8 +367,7 @@ public class {{.MainClass}} {
 `
 
 const resourcesTemplate = `
-{{if .ModelPackage}}import {{.ModelPackage}}.*;{{end}}
-import java.math.BigDecimal;
+{{modelImports}}import java.math.BigDecimal;
 import java.util.*;
 import java.time.Instant;
 import javax.inject.Inject;
-- 
2.43.0


From 48f45ceb7159ca8ed5ef395b57797d6069ecfa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:10 +0000
Subject: [PATCH 100/197] fix: Java servers and clients of mutable models, and
 clients of unnamed actions, compile

---
 java/java_client.go | 19 +++++++++++++------
 java/java_server.go | 16 ++++++++++------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index ffb5ba9..bba59d0 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -97,7 +97,7 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 			path := pq[0]
 			writer.WriteString("        WebTarget target = client.target(config.getTarget()).path(\"" + path + "\")")
 			for _, in := range hact.Inputs {
-				src := "req.get" + gen.Capitalize(in.Name) + "()"
+				src := gen.accessor("req", in.Name)
 				if in.Path {
 					writer.WriteString("\n            .resolveTemplate(\"" + in.Name + "\", " + src + ", true)")
 				} else if in.Query != "" {
@@ -107,14 +107,14 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 			writer.WriteString(";\n        Invocation.Builder inv = target.request(MediaType.APPLICATION_JSON)")
 			for _, in := range hact.Inputs {
 				if in.Header != "" {
-					src := "req.get" + gen.Capitalize(in.Name) + "()"
+					src := gen.accessor("req", in.Name)
 					writer.WriteString("\n            .header(\"" + in.Header + "\", " + src + ")")
 				}
 			}
 			switch hact.Method {
 			case "PUT", "POST":
 				ename, _ := gen.ActionInfo(hact)
-				src := "Entity.entity(req.get" + gen.Capitalize(ename) + "(), MediaType.APPLICATION_JSON)"
+				src := "Entity.entity(" + gen.accessor("req", ename) + ", MediaType.APPLICATION_JSON)"
 				writer.WriteString(";\n        Response response = inv." + strings.ToLower(hact.Method) + "(" + src + ");\n")
 			case "GET", "DELETE":
 				writer.WriteString(";\n        Response response = inv." + strings.ToLower(hact.Method) + "();\n")
@@ -137,8 +137,12 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 						writer.WriteString("            " + tn + " " + out.Name + " = " + osrc + ";\n")
 					}
 				}
-				responseType := gen.ResponseType(hact.Name)
-				writer.WriteString("            return " + responseType + ".builder()\n")
+				responseType := gen.ResponseType(gen.ActionName(hact))
+				if gen.UseImmutable {
+					writer.WriteString("            return " + responseType + ".builder()\n")
+				} else {
+					writer.WriteString("            return new " + responseType + "()\n")
+				}
 				if etype != "void" {
 					writer.WriteString("                ." + ename + "(" + ename + ")\n")
 				}
@@ -147,7 +151,10 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 						writer.WriteString("                ." + out.Name + "(" + out.Name + ")\n")
 					}
 				}
-				writer.WriteString("                .build();\n")
+				if gen.UseImmutable {
+					writer.WriteString("                .build()")
+				}
+				writer.WriteString(";\n")
 			}
 			for _, exc := range hact.Exceptions {
 				writer.WriteString("        case " + fmt.Sprint(exc.Status) + ":\n")
diff --git a/java/java_server.go b/java/java_server.go
index e3bf30c..714fd4e 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -244,16 +244,12 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 				writer.WriteString("            " + resname + " res = " + implName(iname) + "." + name + "(req);\n")
 				wrappedResult := ""
 				if ename != "void" && ename != "" {
-					if gen.UseImmutable {
-						wrappedResult = gen.jsonWrapper(etype, "res.get"+gen.Capitalize(ename)+"()")
-					} else {
-						wrappedResult = gen.jsonWrapper(etype, "res."+ename)
-					}
+					wrappedResult = gen.jsonWrapper(etype, gen.accessor("res", ename))
 				}
 				ret := fmt.Sprintf("Response.status(%d)", +expected(hact).Status)
 				for _, out := range expected(hact).Outputs {
 					if out.Header != "" {
-						ret = ret + ".header(\"" + out.Header + "\", res.get" + gen.Capitalize(out.Name) + "())"
+						ret = ret + ".header(\"" + out.Header + "\", " + gen.accessor("res", out.Name) + ")"
 					}
 				}
 				if wrappedResult != "" {
@@ -475,6 +471,14 @@ func (gen *Generator) ResponseType(name string) string {
 	return gen.Capitalize(name) + "Response"
 }
 
+// accessor returns the expression for the value of a field of the object in the given variable
+func (gen *Generator) accessor(variable string, name string) string {
+	if gen.UseImmutable {
+		return variable + ".get" + gen.Capitalize(name) + "()"
+	}
+	return variable + "." + name
+}
+
 func (gen *Generator) jsonWrapper(etype string, val string) string {
 	switch etype {
 	case "String":
-- 
2.43.0


From 2c8c2f6b21f97f477f8cfaf446e98f26d68b6e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:27 +0000
Subject: [PATCH 101/197] fix: Java clients read headers and entities of every
 type, whatever the names of the parameters

---
 java/java_client.go | 51 ++++++++++++++++++++++++++++++++-------------
 java/java_server.go | 36 ++++++++++++++++----------------
 2 files changed, 54 insertions(+), 33 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index bba59d0..0e27dbb 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -62,13 +62,42 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 		return gen.RequestType(name)
 	}
 	entityNameType := gen.entityNameType
-	fromString := func(typename, val string) string {
+	readEntity := func(typename string) string {
+		if strings.HasSuffix(typename, ">") {
+			return "response.readEntity(new GenericType<" + typename + ">() {})"
+		}
+		return "response.readEntity(" + typename + ".class)"
+	}
+	fromString := func(typename string, param *sadl.HttpParamSpec, val string) string {
+		conv := ""
 		switch typename {
+		case "String":
+			return val
 		case "Instant":
-			return "Instant.parse(" + val + ")"
+			conv = "Instant.parse"
+		case "Byte", "Short", "Integer", "Long", "Float", "Double", "Boolean":
+			conv = typename + ".valueOf"
+		case "UUID":
+			conv = "UUID.fromString"
+		case "BigDecimal", "Timestamp":
+			conv = "new " + typename
 		default:
-			return val
+			kind := param.Type
+			if td := gen.Model.FindType(param.Type); td != nil {
+				kind = td.Type
+			}
+			switch kind {
+			case "Enum":
+				conv = typename + ".fromString"
+			case "UnitValue":
+				conv = "new " + typename
+			default:
+				if gen.Err == nil {
+					gen.Err = fmt.Errorf("Cannot convert the header %q to type %s", param.Header, param.Type)
+				}
+			}
 		}
+		return val + " == null ? null : " + conv + "(" + val + ")"
 	}
 
 	funcMap := template.FuncMap{
@@ -127,16 +156,6 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 				writer.WriteString("            return null; //shoudn't this be void?!\n") //?
 			} else {
 				ename, etype := entityNameType(hact)
-				if etype != "void" {
-					writer.WriteString("            " + etype + " " + ename + " = response.readEntity(" + etype + ".class);\n")
-				}
-				for _, out := range expected(hact).Outputs {
-					if out.Header != "" {
-						tn, _, _ := gen.TypeName(nil, out.Type, true)
-						osrc := fromString(tn, "response.getHeaderString(\""+out.Header+"\")")
-						writer.WriteString("            " + tn + " " + out.Name + " = " + osrc + ";\n")
-					}
-				}
 				responseType := gen.ResponseType(gen.ActionName(hact))
 				if gen.UseImmutable {
 					writer.WriteString("            return " + responseType + ".builder()\n")
@@ -144,11 +163,12 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 					writer.WriteString("            return new " + responseType + "()\n")
 				}
 				if etype != "void" {
-					writer.WriteString("                ." + ename + "(" + ename + ")\n")
+					writer.WriteString("                ." + ename + "(" + readEntity(etype) + ")\n")
 				}
 				for _, out := range expected(hact).Outputs {
 					if out.Header != "" {
-						writer.WriteString("                ." + out.Name + "(" + out.Name + ")\n")
+						osrc := fromString(gen.outputTypeName(hact, out, false), out, "response.getHeaderString(\""+out.Header+"\")")
+						writer.WriteString("                ." + out.Name + "(" + osrc + ")\n")
 					}
 				}
 				if gen.UseImmutable {
@@ -197,6 +217,7 @@ import javax.ws.rs.client.ClientBuilder;
 import javax.ws.rs.client.Entity;
 import javax.ws.rs.client.WebTarget;
 import javax.ws.rs.client.Invocation;
+import javax.ws.rs.core.GenericType;
 import javax.ws.rs.core.MediaType;
 import javax.ws.rs.core.Response;
 import javax.ws.rs.WebApplicationException;
diff --git a/java/java_server.go b/java/java_server.go
index 714fd4e..9bc63f3 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -228,7 +228,7 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 			var b bytes.Buffer
 			writer := bufio.NewWriter(&b)
 			if gen.UseImmutable {
-				writer.WriteString("        " + reqname + " req = " + reqname + ".builder()")
+				writer.WriteString("        " + reqname + " _req = " + reqname + ".builder()")
 			} else {
 				writer.WriteString("        " + reqname + " req = new " + reqname + "()")
 			}
@@ -241,15 +241,15 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 			writer.WriteString(";\n")
 			writer.WriteString("        try {\n")
 			if len(expected(hact).Outputs) > 0 {
-				writer.WriteString("            " + resname + " res = " + implName(iname) + "." + name + "(req);\n")
+				writer.WriteString("            " + resname + " _res = " + implName(iname) + "." + name + "(_req);\n")
 				wrappedResult := ""
 				if ename != "void" && ename != "" {
-					wrappedResult = gen.jsonWrapper(etype, gen.accessor("res", ename))
+					wrappedResult = gen.jsonWrapper(etype, gen.accessor("_res", ename))
 				}
 				ret := fmt.Sprintf("Response.status(%d)", +expected(hact).Status)
 				for _, out := range expected(hact).Outputs {
 					if out.Header != "" {
-						ret = ret + ".header(\"" + out.Header + "\", " + gen.accessor("res", out.Name) + ")"
+						ret = ret + ".header(\"" + out.Header + "\", " + gen.accessor("_res", out.Name) + ")"
 					}
 				}
 				if wrappedResult != "" {
@@ -257,14 +257,14 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 				}
 				writer.WriteString("            return " + ret + ".build();\n")
 			} else {
-				writer.WriteString("            " + implName(iname) + "." + name + "(req);\n")
+				writer.WriteString("            " + implName(iname) + "." + name + "(_req);\n")
 				writer.WriteString(fmt.Sprintf("            return Response.status(%d).build();\n", expected(hact).Status))
 			}
 
 			if gen.Config.GetBool("service-exception") {
-				writer.WriteString("        } catch (ServiceException se) {\n")
-				writer.WriteString("            Object entity = se.entity == null? se : se.entity;\n")
-				writer.WriteString("            int status = 500;\n")
+				writer.WriteString("        } catch (ServiceException _se) {\n")
+				writer.WriteString("            Object _entity = _se.entity == null? _se : _se.entity;\n")
+				writer.WriteString("            int _status = 500;\n")
 				first := true
 				any := false
 				anyNull := false
@@ -273,14 +273,14 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 					if tn != "ServiceException" {
 						any = true
 						if first {
-							writer.WriteString("            if (entity instanceof " + tn + ") {\n")
+							writer.WriteString("            if (_entity instanceof " + tn + ") {\n")
 							first = false
 						} else {
-							writer.WriteString("            } else if (entity instanceof " + tn + ") {\n")
+							writer.WriteString("            } else if (_entity instanceof " + tn + ") {\n")
 						}
-						writer.WriteString(fmt.Sprintf("                status = %d;\n", resp.Status))
+						writer.WriteString(fmt.Sprintf("                _status = %d;\n", resp.Status))
 						if resp.Status == 204 || resp.Status == 304 {
-							writer.WriteString("                entity = null;\n")
+							writer.WriteString("                _entity = null;\n")
 							anyNull = true
 						}
 					}
@@ -289,20 +289,20 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 					writer.WriteString("            }\n")
 				}
 				if anyNull {
-					writer.WriteString("            if (entity == null) {\n")
-					writer.WriteString("                throw new WebApplicationException(status);\n")
+					writer.WriteString("            if (_entity == null) {\n")
+					writer.WriteString("                throw new WebApplicationException(_status);\n")
 					writer.WriteString("            }\n")
 				}
-				writer.WriteString("            throw new WebApplicationException(Response.status(status).entity(entity).build());\n")
+				writer.WriteString("            throw new WebApplicationException(Response.status(_status).entity(_entity).build());\n")
 			} else {
 				for _, resp := range hact.Exceptions {
 					status := fmt.Sprint(resp.Status)
 					tn, _, _ := gen.TypeName(nil, resp.Type, true)
-					writer.WriteString("        } catch (" + tn + " e) {\n")
-					writer.WriteString("                throw new WebApplicationException(Response.status(" + status + ").entity(e).build());\n")
+					writer.WriteString("        } catch (" + tn + " _e) {\n")
+					writer.WriteString("                throw new WebApplicationException(Response.status(" + status + ").entity(_e).build());\n")
 				}
 			}
-			writer.WriteString("        } catch (Throwable th) {\n")
+			writer.WriteString("        } catch (Throwable _th) {\n")
 			writer.WriteString("            return Response.status(500).build();\n")
 			writer.WriteString("        }\n")
 			writer.Flush()
-- 
2.43.0


From 7e38d8d9e9c2b48cf1e55a561cb64ccfd6cefed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:27 +0000
Subject: [PATCH 102/197] fix: Java clients can use all HTTP methods, with and
 without an entity

---
 java/java_client.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index 0e27dbb..8d73f24 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -140,16 +140,22 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 					writer.WriteString("\n            .header(\"" + in.Header + "\", " + src + ")")
 				}
 			}
+			entity := ""
+			for _, in := range hact.Inputs {
+				if in.Query == "" && in.Header == "" && !in.Path {
+					entity = "Entity.entity(" + gen.jsonWrapper(gen.inputTypeName(hact, in, true), gen.accessor("req", in.Name)) + ", MediaType.APPLICATION_JSON)"
+				}
+			}
 			switch hact.Method {
-			case "PUT", "POST":
-				ename, _ := gen.ActionInfo(hact)
-				src := "Entity.entity(" + gen.accessor("req", ename) + ", MediaType.APPLICATION_JSON)"
-				writer.WriteString(";\n        Response response = inv." + strings.ToLower(hact.Method) + "(" + src + ");\n")
-			case "GET", "DELETE":
-				writer.WriteString(";\n        Response response = inv." + strings.ToLower(hact.Method) + "();\n")
-			default:
-				panic("fix me: method = " + hact.Method)
+			case "PUT", "POST", "PATCH":
+				if entity == "" {
+					entity = "Entity.json(\"\")"
+				}
+			}
+			if entity != "" {
+				entity = ", " + entity
 			}
+			writer.WriteString(";\n        Response response = inv.method(\"" + hact.Method + "\"" + entity + ");\n")
 			writer.WriteString("        switch (response.getStatus()) {\n")
 			writer.WriteString("        case " + fmt.Sprint(expected(hact).Status) + ":\n")
 			if len(expected(hact).Outputs) == 0 {
-- 
2.43.0


From 08956a2fc12e1e0c45b8ba7f71d88617057d073c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:27 +0000
Subject: [PATCH 103/197] fix: string entities are JSON in Java requests and
 responses, for servers and clients alike

---
 java/java_client.go | 6 +++++-
 java/java_model.go  | 5 +++++
 java/java_server.go | 9 +++++++--
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index 8d73f24..ea93ddb 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -66,7 +66,11 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 		if strings.HasSuffix(typename, ">") {
 			return "response.readEntity(new GenericType<" + typename + ">() {})"
 		}
-		return "response.readEntity(" + typename + ".class)"
+		entity := "response.readEntity(" + typename + ".class)"
+		if typename == "String" {
+			return "Util.fromJson(" + entity + ", String.class)"
+		}
+		return entity
 	}
 	fromString := func(typename string, param *sadl.HttpParamSpec, val string) string {
 		conv := ""
diff --git a/java/java_model.go b/java/java_model.go
index 564ba30..b251028 100644
--- a/java/java_model.go
+++ b/java/java_model.go
@@ -103,6 +103,11 @@ func (gen *Generator) CreateInterface() {
 		if etype == "String" {
 			gen.NeedUtil = true
 		}
+		for _, in := range hact.Inputs {
+			if in.Query == "" && in.Header == "" && !in.Path && gen.inputTypeName(hact, in, true) == "String" {
+				gen.NeedUtil = true
+			}
+		}
 	}
 }
 
diff --git a/java/java_server.go b/java/java_server.go
index 9bc63f3..ae822ef 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -232,8 +232,13 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 			} else {
 				writer.WriteString("        " + reqname + " req = new " + reqname + "()")
 			}
-			for _, p := range params {
-				writer.WriteString("." + p + "(" + p + ")")
+			for i, p := range params {
+				val := p
+				in := hact.Inputs[i]
+				if in.Query == "" && in.Header == "" && !in.Path && gen.inputTypeName(hact, in, true) == "String" {
+					val = "Util.fromJson(" + p + ", String.class)"
+				}
+				writer.WriteString("." + p + "(" + val + ")")
 			}
 			if gen.UseImmutable {
 				writer.WriteString(".build()")
-- 
2.43.0


From 43aacdbf80d07204d4bec39142eb688a3fc7d07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:27 +0000
Subject: [PATCH 104/197] fix: Java servers and clients with exceptions of any
 type compile, or the type is reported

---
 java/java_client.go |  7 ++++++-
 java/java_server.go | 12 +++++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index ea93ddb..d799372 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -187,8 +187,13 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 				writer.WriteString(";\n")
 			}
 			for _, exc := range hact.Exceptions {
+				tn, _, _ := gen.TypeName(nil, exc.Type, false)
 				writer.WriteString("        case " + fmt.Sprint(exc.Status) + ":\n")
-				writer.WriteString("            throw response.readEntity(" + exc.Type + ".class);\n")
+				if gen.ServiceException {
+					writer.WriteString("            throw new ServiceException().entity(" + readEntity(tn) + ");\n")
+				} else {
+					writer.WriteString("            throw " + readEntity(tn) + ";\n")
+				}
 			}
 			writer.WriteString("        default:\n")
 			writer.WriteString("            throw new RuntimeException(\"Unexpected service response status: \" + response.getStatus());\n")
diff --git a/java/java_server.go b/java/java_server.go
index ae822ef..13a018c 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -60,6 +60,10 @@ func (gen *Generator) ExceptionTypes() map[string]string {
 	for _, hact := range gen.Model.Http {
 		for _, resp := range hact.Exceptions {
 			tn, _, _ := gen.TypeName(nil, resp.Type, true)
+			td := gen.Model.FindType(resp.Type)
+			if td == nil || td.Name == td.Type || (td.Type != "Struct" && td.Type != "Union") {
+				gen.Err = fmt.Errorf("Cannot throw a %s, only structs and unions can be exceptions without the service-exception option", resp.Type)
+			}
 			exceptions[tn] = resp.Type
 		}
 	}
@@ -274,7 +278,8 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 				any := false
 				anyNull := false
 				for _, resp := range hact.Exceptions {
-					tn, _, _ := gen.TypeName(nil, resp.Type, true)
+					tn, _, _ := gen.TypeName(nil, resp.Type, false)
+					tn = strings.Split(tn, "<")[0]
 					if tn != "ServiceException" {
 						any = true
 						if first {
@@ -300,9 +305,14 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 				}
 				writer.WriteString("            throw new WebApplicationException(Response.status(_status).entity(_entity).build());\n")
 			} else {
+				caught := make(map[string]bool, 0)
 				for _, resp := range hact.Exceptions {
 					status := fmt.Sprint(resp.Status)
 					tn, _, _ := gen.TypeName(nil, resp.Type, true)
+					if caught[tn] {
+						continue
+					}
+					caught[tn] = true
 					writer.WriteString("        } catch (" + tn + " _e) {\n")
 					writer.WriteString("                throw new WebApplicationException(Response.status(" + status + ").entity(_e).build());\n")
 				}
-- 
2.43.0


From 8860f36c36aa1a2f99fedfdb15e90b80b42eaff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:27 +0000
Subject: [PATCH 105/197] fix: default values of all types in Java servers

---
 java/java_server.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/java/java_server.go b/java/java_server.go
index 13a018c..5387017 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -206,11 +206,12 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 						param = fmt.Sprintf("@DefaultValue(%q)", *b) + " " + param
 					case *sadl.Decimal:
 						param = fmt.Sprintf("@DefaultValue(%q)", (*b).String()) + " " + param
-					case bool:
-						param = fmt.Sprintf("@DefaultValue(\"%v\")", b) + " " + param
+					case bool, string, int, int64, float64:
+						param = fmt.Sprintf("@DefaultValue(%q)", fmt.Sprint(b)) + " " + param
+					case *sadl.Timestamp:
+						param = fmt.Sprintf("@DefaultValue(%q)", b.String()) + " " + param
 					default:
-						fmt.Println("Whoops:", sadl.Pretty(in.Default))
-						panic("HERE")
+						gen.Err = fmt.Errorf("Cannot use this default value for parameter %q: %v", in.Name, in.Default)
 					}
 				}
 				params = append(params, param)
-- 
2.43.0


From 8b39bd5d587a91e0a38686ce1e822a4b25c4fc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:31 +0000
Subject: [PATCH 106/197] fix: the Java exporter honours the domain option

---
 java/export_java.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/export_java.go b/java/export_java.go
index ea3a34b..a3d171d 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -100,7 +100,7 @@ func (gen *Generator) AddImport(fullReference string) {
 func NewGenerator(model *sadl.Model, outdir string, config *sadl.Data) *Generator {
 	gen := &Generator{}
 	gen.Config = config
-	domain := gen.Config.GetString("domain", "-")
+	domain := gen.GetConfigString("domain", "")
 	if domain == "" {
 		if model.Namespace != "" {
 			domain = strings.Join(reverseStrings(strings.Split(model.Namespace, ".")), ".")
-- 
2.43.0


From 776e00e4c8150f4eaab35e9579d2fa58c37b89ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:31 +0000
Subject: [PATCH 107/197] fix: Java references to a type use the name of its
 class

---
 java/export_java.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/export_java.go b/java/export_java.go
index a3d171d..1a1c7d2 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -855,7 +855,7 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 				return "Timestamp", annotations, nil
 			}
 		}
-		return name, annotations, nil
+		return gen.Capitalize(name), annotations, nil
 	}
 }
 
-- 
2.43.0


From 4f6d810c825426c4182de674aa57ebdac1fc85b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:18 +0000
Subject: [PATCH 108/197] fix: Java model classes can have the names of
 validation annotations

---
 java/export_java.go | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index 1a1c7d2..49913be 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -745,13 +745,11 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 	case "String":
 		if ts != nil {
 			if ts.Pattern != "" {
-				gen.AddImport("javax.validation.constraints.Pattern")
-				annotations = append(annotations, fmt.Sprintf("@Pattern(regexp=%q)", ts.Pattern))
+				annotations = append(annotations, fmt.Sprintf("@%s(regexp=%q)", gen.constraint("Pattern"), ts.Pattern))
 			} else if ts.Values != nil {
 				//?
 			}
 			if ts.MinSize != nil || ts.MaxSize != nil {
-				gen.AddImport("javax.validation.constraints.Size")
 				smin := ""
 				if ts.MinSize != nil {
 					smin = fmt.Sprintf("min=%d", *ts.MinSize)
@@ -763,7 +761,7 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 						smax = ", " + smax
 					}
 				}
-				annotations = append(annotations, fmt.Sprintf("@Size(%s%s)", smin, smax))
+				annotations = append(annotations, fmt.Sprintf("@%s(%s%s)", gen.constraint("Size"), smin, smax))
 			}
 		}
 		return "String", annotations, nil
@@ -892,6 +890,32 @@ func instantContentAnnotations(items string) []string {
 	}
 }
 
+// constraint returns the name by which to refer to the validation annotation: its simple name, which gets imported,
+// unless the model has a class of that name.
+func (gen *Generator) constraint(name string) string {
+	qualified := "javax.validation.constraints." + name
+	for _, td := range gen.Model.Types {
+		if gen.Capitalize(td.Name) == name || gen.hasFieldClass(&td.TypeSpec, name) {
+			return qualified
+		}
+	}
+	gen.AddImport(qualified)
+	return name
+}
+
+// hasFieldClass tells if the class of a field defined in place has the given name
+func (gen *Generator) hasFieldClass(ts *sadl.TypeSpec, name string) bool {
+	for _, fd := range ts.Fields {
+		switch fd.Type {
+		case "Struct", "Enum", "UnitValue":
+			if gen.Capitalize(fd.Name) == name || gen.hasFieldClass(&fd.TypeSpec, name) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 // rangeAnnotations returns the validation annotations for the min and max of a numeric type. The Min and Max
 // annotations take a long, so other bounds use DecimalMin and DecimalMax, which take a string.
 func (gen *Generator) rangeAnnotations(ts *sadl.TypeSpec, name string) []string {
@@ -906,13 +930,11 @@ func (gen *Generator) rangeAnnotations(ts *sadl.TypeSpec, name string) []string
 		switch name {
 		case "Int8", "Int16", "Int32", "Int64":
 			if n, err := strconv.ParseInt(bound.String(), 10, 64); err == nil {
-				gen.AddImport("javax.validation.constraints." + which)
-				annotations = append(annotations, fmt.Sprintf("@%s(%dL)", which, n))
+				annotations = append(annotations, fmt.Sprintf("@%s(%dL)", gen.constraint(which), n))
 				return
 			}
 		}
-		gen.AddImport("javax.validation.constraints.Decimal" + which)
-		annotations = append(annotations, fmt.Sprintf("@Decimal%s(%q)", which, bound.String()))
+		annotations = append(annotations, fmt.Sprintf("@%s(%q)", gen.constraint("Decimal"+which), bound.String()))
 	}
 	add("Min", ts.Min)
 	add("Max", ts.Max)
-- 
2.43.0


From 6e07102e409b758d20a6d3d05db5d42cab12a675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:18 +0000
Subject: [PATCH 109/197] fix: Java servers of mutable models use the request
 they build

---
 java/java_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/java_server.go b/java/java_server.go
index 5387017..bc3bffb 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -235,7 +235,7 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 			if gen.UseImmutable {
 				writer.WriteString("        " + reqname + " _req = " + reqname + ".builder()")
 			} else {
-				writer.WriteString("        " + reqname + " req = new " + reqname + "()")
+				writer.WriteString("        " + reqname + " _req = new " + reqname + "()")
 			}
 			for i, p := range params {
 				val := p
-- 
2.43.0


From 562183448401098e0e0734dbc1dc40bef10445e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:29 +0000
Subject: [PATCH 110/197] fix: HTTP traces are in the order of the examples,
 not in a random one

---
 httptrace/export_http_examples.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 1658685..2feac22 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -43,12 +43,16 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 	reqType := sadl.Capitalize(hdef.Name) + "Request"
 	resType := sadl.Capitalize(hdef.Name) + "Response"
 	namedExamples := make(map[string]*exampleData, 0)
+	var exampleNames []string
 	var reqExample, resExample map[string]interface{}
 
 	//each named example should be a pair of req/res, or req/exc
 	for _, ex := range examples {
 		if ex.Target == reqType {
 			tmp := ex.Example.(map[string]interface{})
+			if _, ok := namedExamples[ex.Name]; !ok {
+				exampleNames = append(exampleNames, ex.Name)
+			}
 			namedExamples[ex.Name] = &exampleData{req: tmp}
 		}
 	}
@@ -69,7 +73,8 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 		}
 	}
 	body := ""
-	for exName, data := range namedExamples {
+	for _, exName := range exampleNames {
+		data := namedExamples[exName]
 		reqExample = data.req
 		resExample = data.res
 		body = body + "#\n# " + exName + " (action=" + hdef.Name + ")\n#\n"
-- 
2.43.0


From d6b5e1ec4556cced414daac6b94adbda1352a81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:29 +0000
Subject: [PATCH 111/197] fix: the Date header of HTTP traces is in GMT, as it
 says

---
 httptrace/export_http_examples.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 2feac22..ac39ec8 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -141,8 +141,8 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 }
 
 func dateHeader() string {
-	t := time.Now()
-	return t.Format("Mon, 2 Jan 2006 15:04:05 GMT")
+	t := time.Now().UTC()
+	return t.Format(http.TimeFormat)
 }
 
 func stripMissingOptionalQueryParams(uri string) string {
-- 
2.43.0


From d5e3e08e599db35fd48cee6b22a30e7cf4c94f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:29 +0000
Subject: [PATCH 112/197] fix: HTTP traces show parameters of all types,
 escaped in the path and query

---
 httptrace/export_http_examples.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index ac39ec8..6052bee 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -3,6 +3,7 @@ package httptrace
 import (
 	"fmt"
 	"net/http"
+	"net/url"
 	"os"
 	"strings"
 	"time"
@@ -28,8 +29,10 @@ func stringExample(ex interface{}) string {
 		return *v
 	case *sadl.Decimal:
 		return v.String()
+	case nil:
+		return ""
 	}
-	return ""
+	return fmt.Sprint(ex)
 }
 
 type exampleData struct {
@@ -91,7 +94,9 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 				if in.Path || in.Query != "" {
 					sex := stringExample(ex)
 					if in.Path {
-						//inExample = urlEncode(inExample)
+						sex = url.PathEscape(sex)
+					} else {
+						sex = url.QueryEscape(sex)
 					}
 					path = strings.Replace(path, "{" + in.Name + "}", sex, -1)
 				} else if in.Header != "" {
-- 
2.43.0


From 7692511a774eac54cc5da5d808c25cda93a2c8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:29 +0000
Subject: [PATCH 113/197] fix: HTTP traces leave out headers and bodies that
 the example does not have

---
 httptrace/export_http_examples.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 6052bee..08219b9 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -100,9 +100,11 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 					}
 					path = strings.Replace(path, "{" + in.Name + "}", sex, -1)
 				} else if in.Header != "" {
-					sex := stringExample(ex)
-					headers = headers + in.Header + ": " + sex + "\n"
-				} else { //body
+					if ex != nil {
+						sex := stringExample(ex)
+						headers = headers + in.Header + ": " + sex + "\n"
+					}
+				} else if ex != nil { //body
 					bodyExample = sadl.Pretty(ex)
 				}
 			}
@@ -122,10 +124,12 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 					for _, out := range hdef.Expected.Outputs {
 						ex := resExample[out.Name]
 						if out.Header != "" {
-							sex := stringExample(ex)
-							headers = headers + out.Header + ": " + sex + "\n"
-						} else { //body
-							if status != 204 {
+							if ex != nil {
+								sex := stringExample(ex)
+								headers = headers + out.Header + ": " + sex + "\n"
+							}
+						} else if ex != nil { //body
+							if status != 204 && status != 304 {
 								bodyExample = sadl.Pretty(ex)
 							}
 						}
-- 
2.43.0


From 867f451dc9556d5bb6aef2e1fefc7b48cbc8026e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:29 +0000
Subject: [PATCH 114/197] fix: HTTP traces of actions without expected result
 or with exceptions of any type do not crash

---
 httptrace/export_http_examples.go | 33 ++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 08219b9..839bfb7 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 	"net/http"
 	"net/url"
-	"os"
 	"strings"
 	"time"
 
@@ -15,8 +14,7 @@ func Export(model *sadl.Model, conf *sadl.Data) error {
 	for _, hdef := range model.Http {
 		snippet, err := generateHttpTrace(model, hdef)
 		if err != nil {
-			fmt.Println("*** Error:", err)
-			os.Exit(1)
+			return err
 		}
 		fmt.Println(snippet)
 	}
@@ -38,7 +36,7 @@ func stringExample(ex interface{}) string {
 type exampleData struct {
 	req map[string]interface{}
 	exc *sadl.HttpExceptionSpec
-	res map[string]interface{}
+	res interface{}
 }
 
 func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
@@ -47,12 +45,20 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 	resType := sadl.Capitalize(hdef.Name) + "Response"
 	namedExamples := make(map[string]*exampleData, 0)
 	var exampleNames []string
-	var reqExample, resExample map[string]interface{}
+	var reqExample map[string]interface{}
+	var resExample interface{}
+	expected := hdef.Expected
+	if expected == nil {
+		expected = &sadl.HttpExpectedSpec{Status: 200}
+	}
 
 	//each named example should be a pair of req/res, or req/exc
 	for _, ex := range examples {
 		if ex.Target == reqType {
-			tmp := ex.Example.(map[string]interface{})
+			tmp, ok := ex.Example.(map[string]interface{})
+			if !ok {
+				return "", fmt.Errorf("The example %q for %s is not an object", ex.Name, ex.Target)
+			}
 			if _, ok := namedExamples[ex.Name]; !ok {
 				exampleNames = append(exampleNames, ex.Name)
 			}
@@ -63,11 +69,15 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 		if ex.Target != reqType {
 			if data, ok := namedExamples[ex.Name]; ok {
 				if ex.Target == resType {
-					data.res = ex.Example.(map[string]interface{})
+					tmp, ok := ex.Example.(map[string]interface{})
+					if !ok {
+						return "", fmt.Errorf("The example %q for %s is not an object", ex.Name, ex.Target)
+					}
+					data.res = tmp
 				} else {
 					for _, exc := range hdef.Exceptions {
 						if exc.Type == ex.Target {
-							data.res = ex.Example.(map[string]interface{})
+							data.res = ex.Example
 							data.exc = exc
 						}
 					}
@@ -115,14 +125,15 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 			
 			if resExample != nil {
 				body = body + "#   Response:"
-				status := hdef.Expected.Status
+				status := expected.Status
 				bodyExample := ""
 				headers := "Content-Type: application/json; charset=utf-8\n"
 
 
 				if data.exc == nil {
-					for _, out := range hdef.Expected.Outputs {
-						ex := resExample[out.Name]
+					outExample := resExample.(map[string]interface{})
+					for _, out := range expected.Outputs {
+						ex := outExample[out.Name]
 						if out.Header != "" {
 							if ex != nil {
 								sex := stringExample(ex)
-- 
2.43.0


From 72f3d403498399bb00cca36f9d60f7eeff498feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:57 +0000
Subject: [PATCH 115/197] fix: HTTP traces show parameters of examples that
 were loaded from JSON

---
 httptrace/export_http_examples.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 839bfb7..26021e8 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -1,6 +1,7 @@
 package httptrace
 
 import (
+	"encoding/json"
 	"fmt"
 	"net/http"
 	"net/url"
@@ -30,7 +31,15 @@ func stringExample(ex interface{}) string {
 	case nil:
 		return ""
 	}
-	return fmt.Sprint(ex)
+	b, err := json.Marshal(ex)
+	if err != nil {
+		return fmt.Sprint(ex)
+	}
+	var s string
+	if json.Unmarshal(b, &s) == nil {
+		return s
+	}
+	return string(b)
 }
 
 type exampleData struct {
-- 
2.43.0


From 419e3bdf430ecb88497e8e1445b2e0da326dec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:13 +0000
Subject: [PATCH 116/197] fix: the parser takes any types, options and comments
 in operations, and does not crash at the end of the file

---
 parser.go | 140 ++++++++++++++++++------------------------------------
 1 file changed, 47 insertions(+), 93 deletions(-)

diff --git a/parser.go b/parser.go
index 1559f89..fb32350 100644
--- a/parser.go
+++ b/parser.go
@@ -362,8 +362,10 @@ func (p *Parser) parseOperationDirective(comment string) error {
 	}
 
 	//parse operation options here
-	options, err := p.ParseOptions("operation", []string{"http"})
-
+	options, err := p.ParseOptions("operation", []string{})
+	if err != nil {
+		return err
+	}
 	err = p.expect(scanner.OPEN_BRACE)
 	if err != nil {
 		return err
@@ -379,7 +381,11 @@ func (p *Parser) parseOperationDirective(comment string) error {
 		}
 		if tok.Type == scanner.CLOSE_BRACE {
 			break
-		} else if tok.Type == scanner.SYMBOL {
+		} else if tok.Type == scanner.NEWLINE || tok.Type == scanner.LINE_COMMENT {
+			//ignore
+		} else if tok.Type != scanner.SYMBOL {
+			return p.SyntaxError()
+		} else {
 			if tok.Text == "inputs" {
 				inputs, err = p.parseOperationInputs()
 			} else if tok.Text == "outputs" {
@@ -409,118 +415,66 @@ func (p *Parser) parseOperationDirective(comment string) error {
 
 func (p *Parser) parseOperationInputs() ([]*OperationInput, error) {
 	var inputs []*OperationInput
-	tok := p.GetToken()
-	if tok.Type != scanner.OPEN_BRACE {
-		return nil, p.SyntaxError()
+	err := p.expect(scanner.OPEN_BRACE)
+	if err != nil {
+		return nil, err
 	}
-	tok = p.GetToken()
-	for tok != nil {
-		if tok.Type == scanner.CLOSE_BRACE {
+	for {
+		field, err := p.parseStructFieldDef()
+		if err != nil {
+			return nil, err
+		}
+		if field == nil {
 			return inputs, nil
-		} else if tok.Type == scanner.NEWLINE {
-			tok = p.GetToken()
-			if tok == nil {
-				return nil, p.EndOfFileError()
-			}
-			continue
-		} else {
-			in := &OperationInput{}
-			if tok.Type != scanner.SYMBOL {
-				return nil, p.SyntaxError()
-			}
-			in.Name = tok.Text
-			tok = p.GetToken()
-			if tok.Type != scanner.SYMBOL {
-				return nil, p.SyntaxError()
-			}
-			in.Type = tok.Text
-			tok = p.GetToken()
-			if tok.Type != scanner.OPEN_PAREN {
-				p.UngetToken()
-			} else {
-				for {
-					tok = p.GetToken()
-					if tok.Type == scanner.CLOSE_PAREN {
-						break
-					} else if tok.Type == scanner.SYMBOL {
-						switch tok.Text {
-						case "required":
-							in.Required = true
-						default:
-							return nil, p.SyntaxError()
-						}
-					}
-				}
-			}
-			inputs = append(inputs, in)
 		}
-		tok = p.GetToken()
+		inputs = append(inputs, &OperationInput{StructFieldDef: *field})
 	}
-	return nil, nil
 }
 
 func (p *Parser) parseOperationOutputs() ([]*OperationOutput, error) {
 	var outputs []*OperationOutput
-	tok := p.GetToken()
-	if tok.Type != scanner.OPEN_BRACE {
-		return nil, p.SyntaxError()
+	err := p.expect(scanner.OPEN_BRACE)
+	if err != nil {
+		return nil, err
 	}
-	tok = p.GetToken()
-	for tok != nil {
-		if tok.Type == scanner.CLOSE_BRACE {
+	for {
+		field, err := p.parseStructFieldDef()
+		if err != nil {
+			return nil, err
+		}
+		if field == nil {
 			return outputs, nil
-		} else if tok.Type == scanner.NEWLINE {
-			tok = p.GetToken()
-			if tok == nil {
-				return nil, p.EndOfFileError()
-			}
-			continue
-		} else {
-			if tok.Type != scanner.SYMBOL {
-				return nil, p.SyntaxError()
-			}
-			outName := tok.Text
-			tok = p.GetToken()
-			if tok.Type != scanner.SYMBOL {
-				return nil, p.SyntaxError()
-			}
-			outType := tok.Text
-			//options? comment?
-			out := &OperationOutput{}
-			out.Name = outName
-			out.Type = outType
-			outputs = append(outputs, out)
 		}
-		tok = p.GetToken()
+		outputs = append(outputs, &OperationOutput{
+			Name:        field.Name,
+			Comment:     field.Comment,
+			Annotations: field.Annotations,
+			TypeSpec:    field.TypeSpec,
+		})
 	}
-	return nil, nil
 }
 
 func (p *Parser) parseOperationExceptions() ([]string, error) {
 	var exceptions []string
-	tok := p.GetToken()
-	if tok.Type != scanner.OPEN_BRACE {
-		return nil, p.SyntaxError()
+	err := p.expect(scanner.OPEN_BRACE)
+	if err != nil {
+		return nil, err
 	}
-	tok = p.GetToken()
-	for tok != nil {
+	for {
+		tok := p.GetToken()
+		if tok == nil {
+			return nil, p.EndOfFileError()
+		}
 		if tok.Type == scanner.CLOSE_BRACE {
 			return exceptions, nil
-		} else if tok.Type == scanner.NEWLINE {
-			tok = p.GetToken()
-			if tok == nil {
-				return nil, p.EndOfFileError()
-			}
-			continue
-		} else {
-			if tok.Type != scanner.SYMBOL {
-				return nil, p.SyntaxError()
-			}
+		} else if tok.Type == scanner.NEWLINE || tok.Type == scanner.LINE_COMMENT || tok.Type == scanner.COMMA {
+			//ignore
+		} else if tok.Type == scanner.SYMBOL {
 			exceptions = append(exceptions, tok.Text)
+		} else {
+			return nil, p.SyntaxError()
 		}
-		tok = p.GetToken()
 	}
-	return nil, nil
 }
 
 func (p *Parser) parseActionDirective(comment string) error {
-- 
2.43.0


From a6622c09906b81240323ef2c77b38c9429341996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:13 +0000
Subject: [PATCH 117/197] fix: the parser refuses what follows a complete
 statement, and unknown directives

---
 parser.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index fb32350..71789e8 100644
--- a/parser.go
+++ b/parser.go
@@ -210,8 +210,10 @@ func (p *Parser) ParseNoValidate(extensions []Extension) error {
 						if handler, ok := p.extensions[tok.Text]; ok {
 							p.currentComment = comment
 							err = handler.Parse(p)
+							break
 						}
 					}
+					return p.expectedDirectiveError()
 				}
 			}
 			comment = ""
@@ -552,6 +554,9 @@ func (p *Parser) parseHttpDirective(name, comment string) error {
 			}
 		}
 		op.Comment, err = p.EndOfStatement(op.Comment)
+		if err != nil {
+			return err
+		}
 		ensureActionName(op)
 		ensureRequiredParams(op)
 		p.schema.Http = append(p.schema.Http, op)
@@ -646,6 +651,9 @@ func (p *Parser) parseHttpSpec(op *HttpDef, comment string, top bool) error {
 		return err
 	}
 	comment, err = p.EndOfStatement(comment)
+	if err != nil {
+		return err
+	}
 	spec := &HttpParamSpec{
 		StructFieldDef: StructFieldDef{
 			Name:        ename,
@@ -843,6 +851,7 @@ func (p *Parser) parseExampleDirective(comment string) error {
 		if options.Name != "" {
 			ex.Name = options.Name
 		}
+		ex.Comment, err = p.EndOfStatement(ex.Comment)
 		p.schema.Examples = append(p.schema.Examples, ex)
 	}
 	return err
@@ -1016,8 +1025,7 @@ func (p *Parser) ParseTypeSpecElements() (string, []string, []*StructFieldDef, [
 					}
 					fields = append(fields, field)
 				}
-				comment, err = p.EndOfStatement(comment)
-				p.UngetToken() //the closing brace
+				comment = p.ParseTrailingComment(comment)
 				return typeName, nil, fields, nil, options, comment, nil
 			case "Enum":
 				var elements []*EnumElementDef
@@ -1038,8 +1046,7 @@ func (p *Parser) ParseTypeSpecElements() (string, []string, []*StructFieldDef, [
 					}
 					elements = append(elements, element)
 				}
-				comment, err = p.EndOfStatement(comment)
-				p.UngetToken() //the closing brace
+				comment = p.ParseTrailingComment(comment)
 				return typeName, nil, nil, elements, options, comment, nil
 			}
 			return typeName, nil, nil, nil, options, comment, p.SyntaxError()
@@ -1721,6 +1728,9 @@ func (p *Parser) parseStructFieldDef() (*StructFieldDef, error) {
 		}
 	}
 	field.Comment, err = p.EndOfStatement(field.Comment)
+	if err != nil {
+		return nil, err
+	}
 	return field, nil
 }
 
@@ -1968,6 +1978,10 @@ func (p *Parser) EndOfStatement(comment string) (string, error) {
 			comment = p.MergeComment(comment, tok.Text)
 		} else if tok.Type == scanner.NEWLINE {
 			return comment, nil
+		} else if tok.Type == scanner.CLOSE_BRACE {
+			//the end of the block the statement is in
+			p.UngetToken()
+			return comment, nil
 		} else {
 			return comment, p.SyntaxError()
 		}
-- 
2.43.0


From 997948a98235a56a45e834a16190660ef5433869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:35 +0000
Subject: [PATCH 118/197] fix: the given name and namespace override the
 source, and directives may be followed by a comment

---
 parser.go | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/parser.go b/parser.go
index 71789e8..afecf70 100644
--- a/parser.go
+++ b/parser.go
@@ -166,12 +166,10 @@ func (p *Parser) ParseNoValidate(extensions []Extension) error {
 	if name != "" {
 		p.schema.Name = name
 	}
-	if p.schema.Name == "" {
+	if p.schema.Name == "" && p.path != "" {
 		p.schema.Name = BaseFileName(p.path)
 	}
-	if p.schema.Namespace == "" {
-		p.schema.Namespace = p.conf.GetString("namespace")
-	}
+	namespace := p.conf.GetString("namespace")
 	comment := ""
 	for {
 		var err error
@@ -230,6 +228,13 @@ func (p *Parser) ParseNoValidate(extensions []Extension) error {
 			return err
 		}
 	}
+	//what is given for the model takes precedence over the source
+	if name != "" {
+		p.schema.Name = name
+	}
+	if namespace != "" {
+		p.schema.Namespace = namespace
+	}
 	var err error
 	p.model, err = NewModel(p.schema)
 	p.schema = nil
@@ -270,15 +275,23 @@ func (p *Parser) parseNamespaceDirective(comment string) error {
 		ns = ns + txt
 	}
 	p.schema.Namespace = ns
-	return err
+	return p.endOfDirective()
 }
 
 func (p *Parser) parseNameDirective(comment string) error {
 	p.schema.Comment = p.MergeComment(p.schema.Comment, comment)
 	txt, err := p.expectText()
-	if err == nil {
-		p.schema.Name = txt
+	if err != nil {
+		return err
 	}
+	p.schema.Name = txt
+	return p.endOfDirective()
+}
+
+// endOfDirective ends a directive of the schema, which may have a comment.
+func (p *Parser) endOfDirective() error {
+	var err error
+	p.schema.Comment, err = p.EndOfStatement(p.schema.Comment)
 	return err
 }
 
@@ -291,7 +304,7 @@ func (p *Parser) parseVersionDirective(comment string) error {
 	switch tok.Type {
 	case scanner.NUMBER, scanner.SYMBOL, scanner.STRING:
 		p.schema.Version = tok.Text
-		return nil
+		return p.endOfDirective()
 	default:
 		return p.Error("Bad version value: " + tok.Text)
 	}
@@ -303,8 +316,9 @@ func (p *Parser) parseBaseDirective(comment string) error {
 	if err == nil {
 		p.schema.Base = base
 		if base != "" && !strings.HasPrefix(base, "/") {
-			err = p.Error("Bad base path value: " + base)
+			return p.Error("Bad base path value: " + base)
 		}
+		err = p.endOfDirective()
 	}
 	return err
 }
@@ -1272,12 +1286,12 @@ func (p *Parser) expectEqualsString() (string, error) {
 func (p *Parser) expectText() (string, error) {
 	tok := p.GetToken()
 	if tok == nil {
-		return "", fmt.Errorf("Unexpected end of file")
+		return "", p.EndOfFileError()
 	}
 	if tok.IsText() {
 		return tok.Text, nil
 	}
-	return "", fmt.Errorf("Expected symbol or string, found %v", tok.Type)
+	return "", p.Error(fmt.Sprintf("Expected symbol or string, found %v", tok.Type))
 }
 
 func (p *Parser) expectInt32() (int32, error) {
-- 
2.43.0


From aead60f0d940bab0cb48a6727a86e1d051261266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:35 +0000
Subject: [PATCH 119/197] fix: include takes the examples of the included file,
 and refuses a file that includes itself

---
 parser.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index afecf70..16481e7 100644
--- a/parser.go
+++ b/parser.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io/ioutil"
+	"path/filepath"
 	"strconv"
 	"strings"
 
@@ -68,6 +69,7 @@ type Parser struct {
 	ungottenToken  *scanner.Token
 	currentComment string
 	extensions     map[string]Extension
+	including      []string //the files that this one is included from
 }
 
 type Extension interface {
@@ -77,7 +79,7 @@ type Extension interface {
 	Validate(p *Parser) error
 }
 
-func parseFileNoValidate(path string, conf *Data, extensions []Extension) (*Parser, error) {
+func parseFileNoValidate(path string, conf *Data, extensions []Extension, including ...string) (*Parser, error) {
 	b, err := ioutil.ReadFile(path)
 	if err != nil {
 		return nil, err
@@ -88,6 +90,8 @@ func parseFileNoValidate(path string, conf *Data, extensions []Extension) (*Pars
 		path:    path,
 		source:  src,
 		conf:    conf,
+
+		including: append(including, filepath.Clean(path)),
 	}
 	err = p.ParseNoValidate(extensions)
 	if err != nil {
@@ -343,8 +347,17 @@ func (p *Parser) parseIncludeDirective(comment string) error {
 	p.schema.Comment = p.MergeComment(p.schema.Comment, comment)
 	fname, err := p.ExpectString()
 	if err == nil {
+		for _, path := range p.including {
+			if path == filepath.Clean(fname) {
+				return p.Error("File includes itself: " + fname)
+			}
+		}
+		err = p.endOfDirective()
+		if err != nil {
+			return err
+		}
 		var incparser *Parser
-		incparser, err = parseFileNoValidate(fname, p.conf, p.extensionList())
+		incparser, err = parseFileNoValidate(fname, p.conf, p.extensionList(), p.including...)
 		if err == nil {
 			inc := incparser.model
 			tmpModel, err := NewModel(p.schema)
@@ -366,6 +379,7 @@ func (p *Parser) parseIncludeDirective(comment string) error {
 				op.Annotations = p.addAnnotation(op.Annotations, "x_include", fname)
 				p.schema.Operations = append(p.schema.Operations, op)
 			}
+			p.schema.Examples = append(p.schema.Examples, inc.Examples...)
 		}
 	}
 	return err
-- 
2.43.0


From 5151b3ba3c67e28e481f870503cc641e112f600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:35 +0000
Subject: [PATCH 120/197] fix: the comments before a struct field are all kept,
 and kept once

---
 parser.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 16481e7..47613e9 100644
--- a/parser.go
+++ b/parser.go
@@ -1712,7 +1712,7 @@ func (p *Parser) parseStructFieldDef() (*StructFieldDef, error) {
 		if tok.Type == scanner.CLOSE_BRACE {
 			return nil, nil
 		} else if tok.Type == scanner.LINE_COMMENT {
-			comment = p.MergeComment("", tok.Text)
+			comment = p.MergeComment(comment, tok.Text)
 			tok = p.GetToken()
 			if tok == nil {
 				return nil, p.EndOfFileError()
@@ -1731,11 +1731,10 @@ func (p *Parser) parseStructFieldDef() (*StructFieldDef, error) {
 	if err != nil {
 		return nil, err
 	}
-	ts, foptions, fcomment, err := p.ParseTypeSpec(comment)
+	ts, foptions, comment, err := p.ParseTypeSpec(comment)
 	if err != nil {
 		return nil, err
 	}
-	comment = p.MergeComment(comment, fcomment)
 	field := &StructFieldDef{
 		Name:     fname,
 		Comment:  comment,
-- 
2.43.0


From c99271419ad464a3036618ddcd9cdc76bda3eb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:15 +0000
Subject: [PATCH 121/197] fix: parameters of HTTP actions can be required and
 take the options of their types, and path and body parameters are required

---
 parser.go | 59 ++++++++++++++++++++++++-------------------------------
 1 file changed, 26 insertions(+), 33 deletions(-)

diff --git a/parser.go b/parser.go
index 47613e9..b4a1f88 100644
--- a/parser.go
+++ b/parser.go
@@ -343,6 +343,13 @@ func (p *Parser) addAnnotation(annos map[string]string, name, val string) map[st
 	return annos
 }
 
+func (p *Parser) mergeAnnotations(annos map[string]string, more map[string]string) map[string]string {
+	for k, v := range more {
+		annos = p.addAnnotation(annos, k, v)
+	}
+	return annos
+}
+
 func (p *Parser) parseIncludeDirective(comment string) error {
 	p.schema.Comment = p.MergeComment(p.schema.Comment, comment)
 	fname, err := p.ExpectString()
@@ -606,7 +613,7 @@ func ensureResourceName(hact *HttpDef) error {
 
 func ensureRequiredParams(hact *HttpDef) {
 	for _, in := range hact.Inputs {
-		if in.Query == "" && in.Header != "" { //body or pathparam
+		if in.Query == "" && in.Header == "" { //body or pathparam
 			in.Required = true
 		}
 	}
@@ -670,29 +677,25 @@ func (p *Parser) parseHttpSpec(op *HttpDef, comment string, top bool) error {
 	if err != nil {
 		return err
 	}
-	ts, _, comment, err := p.ParseTypeSpec(comment)
+	ts, toptions, comment, err := p.ParseTypeSpec(comment)
 	if err != nil {
 		return err
 	}
-	options, err := p.ParseOptions("HttpParam", []string{"header", "default", "required"})
+	spec := &HttpParamSpec{
+		StructFieldDef: StructFieldDef{
+			Name:     ename,
+			TypeSpec: *ts,
+		},
+	}
+	options, err := p.parseStructFieldOptions(&spec.StructFieldDef, "header")
 	if err != nil {
 		return err
 	}
-	comment, err = p.EndOfStatement(comment)
+	spec.Annotations = p.mergeAnnotations(toptions.Annotations, spec.Annotations)
+	spec.Comment, err = p.EndOfStatement(comment)
 	if err != nil {
 		return err
 	}
-	spec := &HttpParamSpec{
-		StructFieldDef: StructFieldDef{
-			Name:        ename,
-			Annotations: options.Annotations,
-			Comment:     comment,
-			TypeSpec:    *ts,
-		},
-	}
-	if options.Default != "" {
-		spec.Default = options.Default
-	}
 
 	paramType, paramName := p.parameterSource(pathTemplate, ename, options)
 	switch paramType {
@@ -1740,20 +1743,11 @@ func (p *Parser) parseStructFieldDef() (*StructFieldDef, error) {
 		Comment:  comment,
 		TypeSpec: *ts,
 	}
-	err = p.parseStructFieldOptions(field)
+	_, err = p.parseStructFieldOptions(field)
 	if err != nil {
 		return nil, err
 	}
-	if foptions != nil {
-		if foptions.Annotations != nil && len(foptions.Annotations) > 0 {
-			if field.Annotations == nil {
-				field.Annotations = make(map[string]string, 0)
-			}
-			for k, v := range foptions.Annotations {
-				field.Annotations[k] = v
-			}
-		}
-	}
+	field.Annotations = p.mergeAnnotations(foptions.Annotations, field.Annotations)
 	field.Comment, err = p.EndOfStatement(field.Comment)
 	if err != nil {
 		return nil, err
@@ -1761,17 +1755,16 @@ func (p *Parser) parseStructFieldDef() (*StructFieldDef, error) {
 	return field, nil
 }
 
-func (p *Parser) parseStructFieldOptions(field *StructFieldDef) error {
-	var acceptable []string
+func (p *Parser) parseStructFieldOptions(field *StructFieldDef, acceptable ...string) (*Options, error) {
 	switch field.Type {
 	case "String":
-		acceptable = []string{"pattern", "values", "minsize", "maxsize", "reference"}
+		acceptable = append(acceptable, "pattern", "values", "minsize", "maxsize", "reference")
 	case "UUID":
-		acceptable = []string{"reference"}
+		acceptable = append(acceptable, "reference")
 	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
-		acceptable = []string{"min", "max"}
+		acceptable = append(acceptable, "min", "max")
 	case "Bytes", "Array", "Map":
-		acceptable = []string{"minsize", "maxsize"}
+		acceptable = append(acceptable, "minsize", "maxsize")
 	}
 	acceptable = append(acceptable, "required")
 	acceptable = append(acceptable, "default")
@@ -1788,7 +1781,7 @@ func (p *Parser) parseStructFieldOptions(field *StructFieldDef) error {
 		field.Annotations = options.Annotations
 		field.Reference = options.Reference
 	}
-	return err
+	return options, err
 }
 
 func (p *Parser) parseEqualsLiteral() (interface{}, error) {
-- 
2.43.0


From 1f179fdcc7cf9edcb3c49e18d7879729fe7e3cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:15 +0000
Subject: [PATCH 122/197] fix: 'expect' keeps the comment before it, and the
 query is no part of the name of an action

---
 parser.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index b4a1f88..6f7f5ef 100644
--- a/parser.go
+++ b/parser.go
@@ -579,6 +579,9 @@ func (p *Parser) parseHttpDirective(name, comment string) error {
 		comment = ""
 		for {
 			done, comment, err = p.IsBlockDone(comment)
+			if err != nil {
+				return err
+			}
 			if done {
 				break
 			}
@@ -592,7 +595,10 @@ func (p *Parser) parseHttpDirective(name, comment string) error {
 		if err != nil {
 			return err
 		}
-		ensureActionName(op)
+		err = ensureActionName(op)
+		if err != nil {
+			return err
+		}
 		ensureRequiredParams(op)
 		p.schema.Http = append(p.schema.Http, op)
 	} else {
@@ -631,9 +637,13 @@ func ensureRequiredParams(hact *HttpDef) {
 }
 
 func resourceName(hact *HttpDef) string {
-	parts := strings.Split(hact.Path, "/")
+	path := hact.Path
+	if n := strings.Index(path, "?"); n >= 0 {
+		path = path[:n]
+	}
+	parts := strings.Split(path, "/")
 	for i := len(parts) - 1; i >= 0; i-- {
-		if strings.Index(parts[i], "{") < 0 {
+		if parts[i] != "" && strings.Index(parts[i], "{") < 0 {
 			return parts[i]
 		}
 	}
@@ -729,6 +739,7 @@ func (p *Parser) parseHttpExpectedSpec(op *HttpDef, comment string) error {
 	}
 	op.Expected = &HttpExpectedSpec{
 		Status:      estatus,
+		Comment:     comment,
 		Annotations: options.Annotations,
 	}
 	tok := p.GetToken()
@@ -737,9 +748,12 @@ func (p *Parser) parseHttpExpectedSpec(op *HttpDef, comment string) error {
 	}
 	if tok.Type == scanner.OPEN_BRACE {
 		op.Expected.Comment = p.ParseTrailingComment(comment)
-		comment = ""
 		for {
+			comment := ""
 			done, comment, err := p.IsBlockDone(comment)
+			if err != nil {
+				return err
+			}
 			if done {
 				op.Expected.Comment = p.MergeComment(op.Expected.Comment, comment)
 				break
-- 
2.43.0


From ecded526aa9249068acf68c0eea10aac0cfc2125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:15 +0000
Subject: [PATCH 123/197] fix: types keep the annotations before and after
 their block, and Enum and Union need a block

---
 parser.go | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/parser.go b/parser.go
index 6f7f5ef..9a74c53 100644
--- a/parser.go
+++ b/parser.go
@@ -916,8 +916,9 @@ func (p *Parser) parseTypeDirective(comment string) error {
 		TypeSpec: TypeSpec{
 			Type: superName,
 		},
-		Name:    typeName,
-		Comment: comment,
+		Name:        typeName,
+		Comment:     comment,
+		Annotations: options.Annotations,
 	}
 	switch superName {
 	case "Any":
@@ -942,10 +943,8 @@ func (p *Parser) parseTypeDirective(comment string) error {
 		err = p.parseMapDef(td, params)
 	case "Struct":
 		err = p.parseStructDef(td, fields)
-		td.Annotations = options.Annotations
 	case "Enum":
-		td.Elements = elements
-		td.Annotations = options.Annotations
+		err = p.parseEnumDef(td, elements)
 	case "Union":
 		err = p.parseUnionDef(td, params, fields)
 	default:
@@ -1002,6 +1001,9 @@ func (p *Parser) ParseTypeSpecElements() (string, []string, []*StructFieldDef, [
 	}
 	tok := p.GetToken()
 	if tok == nil {
+		if typeName == "Enum" || typeName == "Union" {
+			return typeName, nil, nil, nil, options, "", p.EndOfFileError()
+		}
 		return typeName, nil, nil, nil, options, "", nil
 	}
 	if tok.Type == scanner.OPEN_ANGLE {
@@ -1044,11 +1046,8 @@ func (p *Parser) ParseTypeSpecElements() (string, []string, []*StructFieldDef, [
 				return typeName, nil, nil, nil, options, "", err
 			}
 			tok = p.GetToken()
-			if tok == nil {
-				return typeName, nil, nil, nil, options, "", p.EndOfFileError()
-			}
 		}
-		if tok.Type == scanner.OPEN_BRACE {
+		if tok != nil && tok.Type == scanner.OPEN_BRACE {
 			comment := p.ParseTrailingComment("")
 			switch typeName {
 			case "Struct", "Union":
@@ -1073,7 +1072,7 @@ func (p *Parser) ParseTypeSpecElements() (string, []string, []*StructFieldDef, [
 				comment = p.ParseTrailingComment(comment)
 				return typeName, nil, fields, nil, options, comment, nil
 			case "Enum":
-				var elements []*EnumElementDef
+				elements := make([]*EnumElementDef, 0)
 				tok := p.GetToken()
 				if tok == nil {
 					return typeName, nil, nil, nil, options, comment, p.SyntaxError()
@@ -1096,8 +1095,13 @@ func (p *Parser) ParseTypeSpecElements() (string, []string, []*StructFieldDef, [
 			}
 			return typeName, nil, nil, nil, options, comment, p.SyntaxError()
 		}
+		if typeName != "Struct" {
+			return typeName, nil, nil, nil, options, "", p.SyntaxError()
+		}
+	}
+	if tok != nil {
+		p.UngetToken()
 	}
-	p.UngetToken()
 	return typeName, nil, nil, nil, options, "", nil
 }
 
@@ -1200,13 +1204,18 @@ func (p *Parser) parseStructDef(td *TypeDef, fields []*StructFieldDef) error {
 	err := p.parseTypeOptions(td)
 	if err == nil {
 		td.Fields = fields
+		td.Comment, err = p.EndOfStatement(td.Comment)
 	}
 	return err
 }
 
 func (p *Parser) parseEnumDef(td *TypeDef, elements []*EnumElementDef) error {
-	td.Elements = elements
-	return nil
+	err := p.parseTypeOptions(td)
+	if err == nil {
+		td.Elements = elements
+		td.Comment, err = p.EndOfStatement(td.Comment)
+	}
+	return err
 }
 
 func (p *Parser) parseUnionDef(td *TypeDef, params []string, fields []*StructFieldDef) error {
@@ -1426,7 +1435,7 @@ func (p *Parser) parseTypeOptions(td *TypeDef, acceptable ...string) error {
 		td.Min = options.Min
 		td.Max = options.Max
 		td.Reference = options.Reference
-		td.Annotations = options.Annotations
+		td.Annotations = p.mergeAnnotations(td.Annotations, options.Annotations)
 	}
 	return err
 }
-- 
2.43.0


From c472eecd9f66080c9c8bcf4d64e0a3a1b19708a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:15 +0000
Subject: [PATCH 124/197] fix: a type that is a List without item type is an
 Array

---
 parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 9a74c53..5224497 100644
--- a/parser.go
+++ b/parser.go
@@ -938,6 +938,7 @@ func (p *Parser) parseTypeDirective(comment string) error {
 	case "UnitValue":
 		err = p.parseUnitValueDef(td, params)
 	case "Array", "List":
+		td.Type = "Array"
 		err = p.parseArrayDef(td, params)
 	case "Map":
 		err = p.parseMapDef(td, params)
@@ -966,7 +967,7 @@ func (p *Parser) ParseTypeSpec(comment string) (*TypeSpec, *Options, string, err
 	var tsKeys, tsItems string
 	var tsUnit, tsValue string
 	switch tsType {
-	case "Array", "List":
+	case "Array":
 		tsItems, err = p.arrayParams(tsParams)
 	case "Map":
 		tsKeys, tsItems, err = p.mapParams(tsParams)
-- 
2.43.0


From 7c5a69d479c35d02e912530f2938a99cb87751ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:15 +0000
Subject: [PATCH 125/197] fix: Union variants keep their whole types, comments
 and annotations, also where the Union is not named

---
 parser.go | 54 +++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/parser.go b/parser.go
index 5224497..de2a591 100644
--- a/parser.go
+++ b/parser.go
@@ -966,6 +966,7 @@ func (p *Parser) ParseTypeSpec(comment string) (*TypeSpec, *Options, string, err
 	comment = p.MergeComment(comment, tsComment) //?
 	var tsKeys, tsItems string
 	var tsUnit, tsValue string
+	var tsVariants []*UnionVariantDef
 	switch tsType {
 	case "Array":
 		tsItems, err = p.arrayParams(tsParams)
@@ -973,9 +974,11 @@ func (p *Parser) ParseTypeSpec(comment string) (*TypeSpec, *Options, string, err
 		tsKeys, tsItems, err = p.mapParams(tsParams)
 	case "UnitValue":
 		tsValue, tsUnit, err = p.unitValueParams(tsParams)
+	case "Union":
+		tsVariants, err = p.unionVariants(tsParams, tsFields)
+		tsFields = nil
 	default:
 		if len(tsParams) != 0 {
-			//unions!?
 			err = p.SyntaxError()
 		}
 	}
@@ -990,6 +993,7 @@ func (p *Parser) ParseTypeSpec(comment string) (*TypeSpec, *Options, string, err
 		Unit:     tsUnit,
 		Fields:   tsFields,
 		Elements: tsElements,
+		Variants: tsVariants,
 	}
 	return ts, options, comment, nil
 }
@@ -1220,30 +1224,42 @@ func (p *Parser) parseEnumDef(td *TypeDef, elements []*EnumElementDef) error {
 }
 
 func (p *Parser) parseUnionDef(td *TypeDef, params []string, fields []*StructFieldDef) error {
-	err := p.parseTypeOptions(td)
+	var err error
+	td.Variants, err = p.unionVariants(params, fields)
+	if err == nil {
+		err = p.parseTypeOptions(td)
+	}
 	if err == nil {
-		if params != nil {
-			for _, v := range params {
-				vd := &UnionVariantDef{}
-				vd.Name = v
-				vd.Type = v
-				td.Variants = append(td.Variants, vd)
-			}
-		} else if fields != nil {
-			for _, v := range fields {
-				vd := &UnionVariantDef{}
-				vd.Name = v.Name
-				vd.Type = v.Type
-				td.Variants = append(td.Variants, vd)
-			}
-		} else {
-			return p.SyntaxError()
-		}
 		td.Comment, err = p.EndOfStatement(td.Comment)
 	}
 	return err
 }
 
+func (p *Parser) unionVariants(params []string, fields []*StructFieldDef) ([]*UnionVariantDef, error) {
+	var variants []*UnionVariantDef
+	for _, v := range params {
+		vd := &UnionVariantDef{}
+		vd.Name = v
+		vd.Type = v
+		variants = append(variants, vd)
+	}
+	for _, v := range fields {
+		if v.Required || v.Default != nil {
+			return nil, p.Error("A Union variant cannot be required or have a default: " + v.Name)
+		}
+		variants = append(variants, &UnionVariantDef{
+			Name:        v.Name,
+			Comment:     v.Comment,
+			Annotations: v.Annotations,
+			TypeSpec:    v.TypeSpec,
+		})
+	}
+	if len(variants) == 0 {
+		return nil, p.SyntaxError()
+	}
+	return variants, nil
+}
+
 func (p *Parser) Error(msg string) error {
 	Debug("*** error, last token:", p.lastToken)
 	return fmt.Errorf("*** %s\n", scanner.FormattedAnnotation(p.path, p.Source(), "", msg, p.lastToken, scanner.RED, 5))
-- 
2.43.0


From c62404993c0e0f62454170df4c264c2ba602bd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:15 +0000
Subject: [PATCH 126/197] fix: strings in options and directives are unescaped,
 and the name of an example may be a string

---
 parser.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/parser.go b/parser.go
index de2a591..104f49b 100644
--- a/parser.go
+++ b/parser.go
@@ -307,7 +307,7 @@ func (p *Parser) parseVersionDirective(comment string) error {
 	}
 	switch tok.Type {
 	case scanner.NUMBER, scanner.SYMBOL, scanner.STRING:
-		p.schema.Version = tok.Text
+		p.schema.Version = p.text(tok)
 		return p.endOfDirective()
 	default:
 		return p.Error("Bad version value: " + tok.Text)
@@ -1322,11 +1322,22 @@ func (p *Parser) assertString(tok *scanner.Token) (string, error) {
 		return "", p.EndOfFileError()
 	}
 	if tok.Type == scanner.STRING {
-		return tok.Text, nil
+		return p.text(tok), nil
 	}
 	return tok.Text, p.Error(fmt.Sprintf("Expected string, found %v", tok.Type))
 }
 
+// text is the text of a symbol or string, without the escapes.
+func (p *Parser) text(tok *scanner.Token) string {
+	if tok.Type == scanner.STRING {
+		//regular expressions also have escapes that are not those of a string, i.e. "\d"
+		if s, err := strconv.Unquote("\"" + tok.Text + "\""); err == nil {
+			return s
+		}
+	}
+	return tok.Text
+}
+
 func (p *Parser) ExpectString() (string, error) {
 	tok := p.GetToken()
 	return p.assertString(tok)
@@ -1346,7 +1357,7 @@ func (p *Parser) expectText() (string, error) {
 		return "", p.EndOfFileError()
 	}
 	if tok.IsText() {
-		return tok.Text, nil
+		return p.text(tok), nil
 	}
 	return "", p.Error(fmt.Sprintf("Expected symbol or string, found %v", tok.Type))
 }
@@ -1521,7 +1532,10 @@ func (p *Parser) ParseOptions(typeName string, acceptable []string) (*Options, e
 					case "header":
 						options.Header, err = p.expectEqualsString()
 					case "name":
-						options.Name, err = p.expectEqualsIdentifier()
+						err = p.expect(scanner.EQUALS)
+						if err == nil {
+							options.Name, err = p.expectText()
+						}
 					default:
 						err = p.Error("Unrecognized option: " + tok.Text)
 					}
@@ -1559,7 +1573,7 @@ func (p *Parser) parseStringToEndOfLine() (string, string, error) {
 		}
 	}
 	if tok.Type == scanner.STRING {
-		val = tok.Text
+		val = p.text(tok)
 		tok = p.GetToken()
 	}
 	if tok == nil {
@@ -1688,7 +1702,7 @@ func (p *Parser) expectEqualsStringArray() ([]string, error) {
 			break
 		}
 		if tok.Type == scanner.STRING {
-			values = append(values, tok.Text)
+			values = append(values, p.text(tok))
 		} else if tok.Type == scanner.COMMA || tok.Type == scanner.NEWLINE {
 			//ignore
 		} else {
-- 
2.43.0


From 66476fb4f01b5b13ab78e444601e04ac20fe6931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:15 +0000
Subject: [PATCH 127/197] fix: literals are empty arrays where the source says
 so, and contain no stray tokens

---
 parser.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 104f49b..0c59def 100644
--- a/parser.go
+++ b/parser.go
@@ -1880,7 +1880,7 @@ func (p *Parser) parseLiteralSymbol(tok *scanner.Token) (interface{}, error) {
 	case "null":
 		return nil, nil
 	default:
-		return nil, fmt.Errorf("Not a valid symbol: %s", tok.Text)
+		return nil, p.Error("Not a valid symbol: " + tok.Text)
 	}
 }
 func (p *Parser) parseLiteralString(tok *scanner.Token) (*string, error) {
@@ -1901,7 +1901,7 @@ func (p *Parser) parseLiteralNumber(tok *scanner.Token) (interface{}, error) {
 }
 
 func (p *Parser) parseLiteralArray() (interface{}, error) {
-	var ary []interface{}
+	ary := make([]interface{}, 0)
 	for {
 		tok := p.GetToken()
 		if tok == nil {
@@ -1949,8 +1949,8 @@ func (p *Parser) parseLiteralObject() (interface{}, error) {
 			obj[*pkey] = val
 		} else if tok.Type == scanner.SYMBOL {
 			return nil, p.Error("Expected String key for JSON object, found symbol '" + tok.Text + "'")
-		} else {
-			//fmt.Println("ignoring this token:", tok)
+		} else if tok.Type != scanner.COMMA && tok.Type != scanner.NEWLINE {
+			return nil, p.SyntaxError()
 		}
 	}
 }
-- 
2.43.0


From 691f497dc0da8b719a91312272c72da99421dbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:51 +0000
Subject: [PATCH 128/197] fix: every type the source uses must be defined, and
 members, parameters and operations must be distinct

---
 parser.go | 264 ++++++++++++++++++++++++++++++++----------------------
 1 file changed, 159 insertions(+), 105 deletions(-)

diff --git a/parser.go b/parser.go
index 0c59def..4e79c3b 100644
--- a/parser.go
+++ b/parser.go
@@ -2102,26 +2102,7 @@ func (p *Parser) MergeComment(comment1 string, comment2 string) string {
 func (p *Parser) Validate() (*Model, error) {
 	var err error
 	for _, td := range p.model.Types {
-		switch td.Type {
-		case "Struct":
-			err = p.validateStruct(td)
-		case "Array":
-			err = p.validateArray(td)
-		case "Map":
-			err = p.validateMap(td)
-		case "UnitValue":
-			err = p.validateUnitValue(td)
-		case "String":
-			err = p.validateStringDef(td)
-		case "UUID":
-			err = p.validateReference(td)
-		}
-		if err != nil {
-			return nil, err
-		}
-	}
-	for _, ex := range p.model.Examples {
-		err = p.validateExample(ex)
+		err = p.validateTypeSpec(td.Name, &td.TypeSpec)
 		if err != nil {
 			return nil, err
 		}
@@ -2135,7 +2116,12 @@ func (p *Parser) Validate() (*Model, error) {
 			}
 		}
 	*/
+	operations := make(map[string]bool, 0)
 	for _, op := range p.model.Operations {
+		if operations[op.Name] {
+			return nil, fmt.Errorf("Duplicate operation: %s", op.Name)
+		}
+		operations[op.Name] = true
 		//err = p.validateAction(action)
 		err = p.validateOperation(op)
 		if err != nil {
@@ -2148,6 +2134,12 @@ func (p *Parser) Validate() (*Model, error) {
 			return nil, err
 		}
 	}
+	for _, ex := range p.model.Examples {
+		err = p.validateExample(ex)
+		if err != nil {
+			return nil, err
+		}
+	}
 	for _, ext := range p.extensions {
 		err = ext.Validate(p)
 		if err != nil {
@@ -2312,10 +2304,15 @@ func (p *Parser) validateHttp(hact *HttpDef) error {
 	}
 	needsBody := hact.Method == "POST" || hact.Method == "PUT" || hact.Method == "PATCH"
 	bodyParam := ""
+	inputs := make(map[string]bool, 0)
 	for _, in := range hact.Inputs {
-		t := p.model.FindType(in.Type)
-		if t == nil {
-			return fmt.Errorf("Action '%s' input type '%s' is not defined", hact.Name, in.Type)
+		if inputs[in.Name] {
+			return fmt.Errorf("Action '%s' has a duplicate input '%s'", hact.Name, in.Name)
+		}
+		inputs[in.Name] = true
+		err = p.validateField(hact.Name+"."+in.Name, &in.StructFieldDef)
+		if err != nil {
+			return err
 		}
 		//paramType, paramName := p.parameterSource(hact.Path, in.Name)
 		if !in.Path && in.Query == "" && in.Header == "" {
@@ -2329,16 +2326,27 @@ func (p *Parser) validateHttp(hact *HttpDef) error {
 			}
 		}
 	}
+	for _, exc := range hact.Exceptions {
+		t := p.model.FindType(exc.Type)
+		if t == nil {
+			return fmt.Errorf("Action '%s' exception type '%s' is not defined", hact.Name, exc.Type)
+		}
+	}
 	needsBody = false
 	if hact.Expected == nil {
 		return nil
 	}
 	needsBody = hact.Expected.Status != 204 && hact.Expected.Status != 304
 	bodyParam = ""
+	outputs := make(map[string]bool, 0)
 	for _, out := range hact.Expected.Outputs {
-		t := p.model.FindType(out.Type)
-		if t == nil {
-			return fmt.Errorf("Action '%s' expected type '%s' is not defined", hact.Name, out.Type)
+		if outputs[out.Name] {
+			return fmt.Errorf("Action '%s' has a duplicate output '%s'", hact.Name, out.Name)
+		}
+		outputs[out.Name] = true
+		err = p.validateField(hact.Name+"."+out.Name, &out.StructFieldDef)
+		if err != nil {
+			return err
 		}
 		if out.Header == "" {
 			if needsBody {
@@ -2351,12 +2359,6 @@ func (p *Parser) validateHttp(hact *HttpDef) error {
 			}
 		}
 	}
-	for _, exc := range hact.Exceptions {
-		t := p.model.FindType(exc.Type)
-		if t == nil {
-			return fmt.Errorf("Action '%s' exception type '%s' is not defined", hact.Name, exc.Type)
-		}
-	}
 	return nil
 }
 
@@ -2385,120 +2387,172 @@ func (p *Parser) validateHttp(hact *HttpDef) error {
 */
 
 func (p *Parser) validateOperation(action *OperationDef) error {
-	//fix me
+	fields := make(map[string]bool, 0)
+	for _, in := range action.Inputs {
+		if fields[in.Name] {
+			return fmt.Errorf("Operation '%s' has a duplicate input '%s'", action.Name, in.Name)
+		}
+		fields[in.Name] = true
+		err := p.validateField(action.Name+"."+in.Name, &in.StructFieldDef)
+		if err != nil {
+			return err
+		}
+	}
+	fields = make(map[string]bool, 0)
+	for _, out := range action.Outputs {
+		if fields[out.Name] {
+			return fmt.Errorf("Operation '%s' has a duplicate output '%s'", action.Name, out.Name)
+		}
+		fields[out.Name] = true
+		err := p.validateTypeSpec(action.Name+"."+out.Name, &out.TypeSpec)
+		if err != nil {
+			return err
+		}
+	}
+	for _, exc := range action.Exceptions {
+		if p.model.FindType(exc) == nil {
+			return fmt.Errorf("Operation '%s' exception type '%s' is not defined", action.Name, exc)
+		}
+	}
 	return nil
 }
 
-func (p *Parser) validateStringDef(td *TypeDef) error {
-	if td.Pattern != "" {
-		if td.Values != nil {
-			return fmt.Errorf("Both 'pattern' and 'values' options cannot coexist in String type %s", td.Name)
+// validateTypeSpec checks a type, named or not, and the types it is made of. The name is for the error.
+func (p *Parser) validateTypeSpec(name string, ts *TypeSpec) error {
+	switch ts.Type {
+	case "Struct":
+		return p.validateStruct(name, ts)
+	case "Union":
+		return p.validateUnion(name, ts)
+	case "Enum":
+		return p.validateEnum(name, ts)
+	case "Array":
+		return p.validateArray(name, ts)
+	case "Map":
+		return p.validateMap(name, ts)
+	case "UnitValue":
+		return p.validateUnitValue(name, ts)
+	case "String":
+		return p.validateStringDef(name, ts)
+	case "UUID":
+		return p.validateReference(name, ts)
+	default:
+		if p.model.FindType(ts.Type) == nil {
+			return fmt.Errorf("Undefined type '%s' in '%s'", ts.Type, name)
+		}
+		return nil
+	}
+}
+
+func (p *Parser) validateStringDef(name string, ts *TypeSpec) error {
+	if ts.Pattern != "" {
+		if ts.Values != nil {
+			return fmt.Errorf("Both 'pattern' and 'values' options cannot coexist in String type %s", name)
 		}
 	}
-	return p.validateReference(td)
+	return p.validateReference(name, ts)
 }
 
-func (p *Parser) validateReference(td *TypeDef) error {
-	if td.Reference != "" {
-		t := p.model.FindType(td.Reference)
+func (p *Parser) validateReference(name string, ts *TypeSpec) error {
+	if ts.Reference != "" {
+		t := p.model.FindType(ts.Reference)
 		if t == nil {
-			return fmt.Errorf("Undefined type '%s' for %s reference", td.Reference, td.Name)
+			return fmt.Errorf("Undefined type '%s' for %s reference", ts.Reference, name)
 		}
 	}
 	return nil
 }
 
-func (p *Parser) validateUnitValue(td *TypeDef) error {
-	vt := p.model.FindType(td.Value)
+func (p *Parser) validateUnitValue(name string, ts *TypeSpec) error {
+	vt := p.model.FindType(ts.Value)
 	if vt == nil {
-		return fmt.Errorf("Undefined value type '%s' for %s UnitValue type", td.Value, td.Name)
+		return fmt.Errorf("Undefined value type '%s' for %s UnitValue type", ts.Value, name)
 	}
 	if !p.model.IsNumericType(&vt.TypeSpec) {
-		return fmt.Errorf("UnitValue value type of %s is not numeric: %s", td.Name, vt.Name)
+		return fmt.Errorf("UnitValue value type of %s is not numeric: %s", name, vt.Name)
 	}
-	ut := p.model.FindType(td.Unit)
+	ut := p.model.FindType(ts.Unit)
 	if ut == nil {
-		return fmt.Errorf("Undefined unit type '%s' for %s UnitValue unit", td.Unit, td.Name)
+		return fmt.Errorf("Undefined unit type '%s' for %s UnitValue unit", ts.Unit, name)
 	}
 	if ut.Type != "String" && ut.Type != "Enum" {
-		return fmt.Errorf("UnitValue value type of %s is not String or Enum: %s", td.Name, vt.Name)
+		return fmt.Errorf("UnitValue unit type of %s is not String or Enum: %s", name, ut.Name)
 	}
 	return nil
 }
 
-func (p *Parser) validateStruct(td *TypeDef) error {
-	model := p.model
-	for _, field := range td.Fields {
-		ftd := model.FindType(field.Type)
-		if ftd == nil {
-			return fmt.Errorf("Undefined type '%s' in struct field '%s.%s'", field.Type, td.Name, field.Name)
+func (p *Parser) validateEnum(name string, ts *TypeSpec) error {
+	symbols := make(map[string]bool, 0)
+	for _, el := range ts.Elements {
+		if symbols[el.Symbol] {
+			return fmt.Errorf("Duplicate symbol '%s' in Enum %s", el.Symbol, name)
 		}
-		switch field.Type {
-		case "Array":
-			if field.Items != "" && field.Items != "Any" {
-				fitd := model.FindType(field.Items)
-				if fitd == nil {
-					return fmt.Errorf("Undefined array item type '%s' in struct field '%s.%s'", field.Items, td.Name, field.Name)
-				}
-			}
-		case "Map":
-			if field.Keys != "" && field.Keys != "Any" {
-				fitd := model.FindType(field.Keys)
-				if fitd == nil {
-					return fmt.Errorf("Undefined map key type '%s' in struct field '%s.%s'", field.Keys, td.Name, field.Name)
-				}
-				//TODO: ensure the key type is stringable.
-			}
-			if field.Items != "" && field.Items != "Any" {
-				fitd := model.FindType(field.Items)
-				if fitd == nil {
-					return fmt.Errorf("Undefined map value '%s' in struct field '%s.%s'", field.Items, td.Name, field.Name)
-				}
-			}
-		}
-		if field.Default != nil {
-			if field.Required {
-				return fmt.Errorf("Cannot have a default value for required field: '%s.%s'", td.Name, field.Name)
-			}
-			err := model.ValidateAgainstTypeSpec(field.Type, &field.TypeSpec, field.Default)
-			if err != nil {
-				return err
-			}
+		symbols[el.Symbol] = true
+	}
+	return nil
+}
+
+func (p *Parser) validateUnion(name string, ts *TypeSpec) error {
+	variants := make(map[string]bool, 0)
+	for _, v := range ts.Variants {
+		if variants[v.Name] {
+			return fmt.Errorf("Duplicate variant '%s' in Union %s", v.Name, name)
 		}
-		if field.Values != nil && field.Pattern != "" {
-			return fmt.Errorf("Cannot have both 'values' and 'pattern' constraints in one string field: '%s.%s'", td.Name, field.Name)
+		variants[v.Name] = true
+		err := p.validateTypeSpec(name+"."+v.Name, &v.TypeSpec)
+		if err != nil {
+			return err
 		}
 	}
 	return nil
 }
 
-func (p *Parser) validateArray(td *TypeDef) error {
-	model := p.model
-	if td.Items == "Any" {
-		return nil
+// validateField checks a struct field or a parameter.
+func (p *Parser) validateField(name string, field *StructFieldDef) error {
+	err := p.validateTypeSpec(name, &field.TypeSpec)
+	if err != nil {
+		return err
 	}
-	itd := model.FindType(td.Items)
-	if itd == nil {
-		return fmt.Errorf("Undefined type '%s' for Array items '%s'", td.Items, td.Name)
+	if field.Default != nil {
+		if field.Required {
+			return fmt.Errorf("Cannot have a default value for required field: '%s'", name)
+		}
+		return p.model.ValidateAgainstTypeSpec(field.Type, &field.TypeSpec, field.Default)
 	}
 	return nil
 }
 
-func (p *Parser) validateMap(td *TypeDef) error {
-	model := p.model
-	if td.Items == "Any" {
-		return nil
+func (p *Parser) validateStruct(name string, ts *TypeSpec) error {
+	fields := make(map[string]bool, 0)
+	for _, field := range ts.Fields {
+		if fields[field.Name] {
+			return fmt.Errorf("Duplicate field '%s' in Struct %s", field.Name, name)
+		}
+		fields[field.Name] = true
+		err := p.validateField(name+"."+field.Name, field)
+		if err != nil {
+			return err
+		}
 	}
-	itd := model.FindType(td.Items)
+	return nil
+}
+
+func (p *Parser) validateArray(name string, ts *TypeSpec) error {
+	itd := p.model.FindType(ts.Items)
 	if itd == nil {
-		return fmt.Errorf("Undefined type '%s' for Map items '%s'", td.Items, td.Name)
+		return fmt.Errorf("Undefined type '%s' for Array items '%s'", ts.Items, name)
 	}
-	if td.Keys == "String" {
-		return nil
+	return nil
+}
+
+func (p *Parser) validateMap(name string, ts *TypeSpec) error {
+	itd := p.model.FindType(ts.Items)
+	if itd == nil {
+		return fmt.Errorf("Undefined type '%s' for Map items '%s'", ts.Items, name)
 	}
-	ktd := model.FindType(td.Keys)
+	ktd := p.model.FindType(ts.Keys)
 	if ktd == nil {
-		return fmt.Errorf("Undefined type '%s' for Map keys '%s'", td.Keys, td.Name)
+		return fmt.Errorf("Undefined type '%s' for Map keys '%s'", ts.Keys, name)
 	}
 	return nil
 }
-- 
2.43.0


From 136146f5f6eb695ea172f43f38b8697e9e7b2192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:51 +0000
Subject: [PATCH 129/197] fix: examples of requests and responses are checked
 against the parameters they have

---
 parser.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/parser.go b/parser.go
index 4e79c3b..37f220f 100644
--- a/parser.go
+++ b/parser.go
@@ -2213,11 +2213,7 @@ func (p *Parser) validateExampleAgainstHttpRequest(hact *HttpDef, ex *ExampleDef
 	for k, v := range m {
 		for _, in := range hact.Inputs {
 			if in.Name == k {
-				td := p.model.FindType(in.Type)
-				if td == nil {
-					return fmt.Errorf("Type not found in example: %s", in.Type)
-				}
-				err := p.model.ValidateAgainstTypeSpec("example for "+ex.Target+"."+k, &td.TypeSpec, v)
+				err := p.model.ValidateAgainstTypeSpec("example for "+ex.Target+"."+k, &in.TypeSpec, v)
 				if err != nil {
 					return err
 				}
@@ -2241,14 +2237,14 @@ func (p *Parser) validateExampleAgainstHttpResponse(hact *HttpDef, ex *ExampleDe
 	if !ok {
 		return fmt.Errorf("Example for an HTTP response must be a JSON object")
 	}
+	var outputs []*HttpParamSpec
+	if hact.Expected != nil {
+		outputs = hact.Expected.Outputs
+	}
 	for k, v := range m {
-		for _, out := range hact.Expected.Outputs {
+		for _, out := range outputs {
 			if out.Name == k {
-				td := p.model.FindType(out.Type)
-				if td == nil {
-					return fmt.Errorf("Type not found in HTTP response example: %s", out.Type)
-				}
-				err := p.model.ValidateAgainstTypeSpec("HTTP response example for "+ex.Target+"."+k, &td.TypeSpec, v)
+				err := p.model.ValidateAgainstTypeSpec("HTTP response example for "+ex.Target+"."+k, &out.TypeSpec, v)
 				if err != nil {
 					return err
 				}
@@ -2256,7 +2252,7 @@ func (p *Parser) validateExampleAgainstHttpResponse(hact *HttpDef, ex *ExampleDe
 			}
 		}
 	}
-	for _, out := range hact.Expected.Outputs {
+	for _, out := range outputs {
 		if out.Required {
 			if _, ok := present[out.Name]; !ok {
 				return fmt.Errorf("Required output '%s' missing in example for %s", out.Name, ex.Target)
-- 
2.43.0


From 5b15a9efded25cd635454fe7ddb0118f7949bd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:34 +0000
Subject: [PATCH 130/197] fix: a path parameter with a default is not required

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 37f220f..384aa0a 100644
--- a/parser.go
+++ b/parser.go
@@ -619,7 +619,7 @@ func ensureResourceName(hact *HttpDef) error {
 
 func ensureRequiredParams(hact *HttpDef) {
 	for _, in := range hact.Inputs {
-		if in.Query == "" && in.Header == "" { //body or pathparam
+		if in.Query == "" && in.Header == "" && in.Default == nil { //body or pathparam
 			in.Required = true
 		}
 	}
-- 
2.43.0


From 4b4721929127940821259d557521cb07d0e475ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:18 +0000
Subject: [PATCH 131/197] fix: an output with the name of a path or query
 variable is not a path or query parameter

---
 parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 384aa0a..a493ae9 100644
--- a/parser.go
+++ b/parser.go
@@ -666,7 +666,10 @@ func ensureActionName(hact *HttpDef) error {
 }
 
 func (p *Parser) parseHttpSpec(op *HttpDef, comment string, top bool) error {
-	pathTemplate := op.Path
+	pathTemplate := ""
+	if top {
+		pathTemplate = op.Path //only inputs are in the path
+	}
 	ename, err := p.ExpectIdentifier()
 	if err != nil {
 		return err
-- 
2.43.0


From 4d64addb1a1eac682b2226ad3fc91821d3fbef37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:08 +0000
Subject: [PATCH 132/197] fix: a field of type Struct, Enum or Union can be
 required or have a default, also before its block

---
 parser.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index a493ae9..0b3e003 100644
--- a/parser.go
+++ b/parser.go
@@ -704,7 +704,7 @@ func (p *Parser) parseHttpSpec(op *HttpDef, comment string, top bool) error {
 	if err != nil {
 		return err
 	}
-	spec.Annotations = p.mergeAnnotations(toptions.Annotations, spec.Annotations)
+	p.addFieldOptions(&spec.StructFieldDef, toptions)
 	spec.Comment, err = p.EndOfStatement(comment)
 	if err != nil {
 		return err
@@ -914,6 +914,9 @@ func (p *Parser) parseTypeDirective(comment string) error {
 	if err != nil {
 		return err
 	}
+	if options.Required || options.Default != nil {
+		return p.Error("Unrecognized option for " + superName)
+	}
 	comment = p.MergeComment(comment, comment2)
 	td := &TypeDef{
 		TypeSpec: TypeSpec{
@@ -1049,7 +1052,7 @@ func (p *Parser) ParseTypeSpecElements() (string, []string, []*StructFieldDef, [
 	} else if typeName == "Struct" || typeName == "Enum" || typeName == "Union" {
 		if tok.Type != scanner.OPEN_BRACE {
 			p.UngetToken()
-			options, err = p.ParseOptions(typeName, []string{})
+			options, err = p.ParseOptions(typeName, []string{"required", "default"}) //for a field of this type
 			if err != nil {
 				return typeName, nil, nil, nil, options, "", err
 			}
@@ -1804,7 +1807,7 @@ func (p *Parser) parseStructFieldDef() (*StructFieldDef, error) {
 	if err != nil {
 		return nil, err
 	}
-	field.Annotations = p.mergeAnnotations(foptions.Annotations, field.Annotations)
+	p.addFieldOptions(field, foptions)
 	field.Comment, err = p.EndOfStatement(field.Comment)
 	if err != nil {
 		return nil, err
@@ -1812,6 +1815,15 @@ func (p *Parser) parseStructFieldDef() (*StructFieldDef, error) {
 	return field, nil
 }
 
+// addFieldOptions adds the options that came before the block of the type of the field.
+func (p *Parser) addFieldOptions(field *StructFieldDef, options *Options) {
+	field.Required = field.Required || options.Required
+	if field.Default == nil {
+		field.Default = options.Default
+	}
+	field.Annotations = p.mergeAnnotations(options.Annotations, field.Annotations)
+}
+
 func (p *Parser) parseStructFieldOptions(field *StructFieldDef, acceptable ...string) (*Options, error) {
 	switch field.Type {
 	case "String":
-- 
2.43.0


From cecb3c022cbe427ce4756cb09f2e3ce030762482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:23 +0000
Subject: [PATCH 133/197] fix: the type of 'expect' can be any type

---
 parser.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 0b3e003..61b2f76 100644
--- a/parser.go
+++ b/parser.go
@@ -767,14 +767,19 @@ func (p *Parser) parseHttpExpectedSpec(op *HttpDef, comment string) error {
 			}
 		}
 	} else if tok.Type == scanner.SYMBOL {
+		p.UngetToken()
+		ts, toptions, tcomment, err := p.ParseTypeSpec("")
+		if err != nil {
+			return err
+		}
 		output := &HttpParamSpec{
 			StructFieldDef: StructFieldDef{
-				Name: "entity",
-				TypeSpec: TypeSpec{
-					Type: tok.Text,
-				},
+				Name:     "entity",
+				Comment:  tcomment,
+				TypeSpec: *ts,
 			},
 		}
+		p.addFieldOptions(&output.StructFieldDef, toptions)
 		op.Expected.Outputs = append(op.Expected.Outputs, output)
 	} else {
 		p.UngetToken()
-- 
2.43.0


From eee9b3fb726c5c967873c4438e1e4679f4e2d484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:23 +0000
Subject: [PATCH 134/197] fix: a comment after the comma that ends an Enum
 symbol is of that symbol

---
 parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.go b/parser.go
index 61b2f76..fde31fb 100644
--- a/parser.go
+++ b/parser.go
@@ -1750,6 +1750,10 @@ func (p *Parser) parseEnumElementDef() (*EnumElementDef, error) {
 	if err != nil {
 		return nil, err
 	}
+	tok := p.GetToken()
+	if tok != nil && tok.Type != scanner.COMMA && tok.Type != scanner.SEMICOLON {
+		p.UngetToken()
+	}
 	comment = p.ParseTrailingComment(comment)
 	return &EnumElementDef{
 		Symbol:      sym,
-- 
2.43.0


From 0921297211c9496f90026f1a0ecd658eacb7fec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:40 +0000
Subject: [PATCH 135/197] fix: operations and HTTP actions are decompiled with
 all they have, in a stable order

---
 misc.go     |   8 +--
 unparser.go | 190 +++++++++++++++++++++++++---------------------------
 2 files changed, 96 insertions(+), 102 deletions(-)

diff --git a/misc.go b/misc.go
index 608b482..6142c55 100644
--- a/misc.go
+++ b/misc.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"path/filepath"
 	"reflect"
+	"sort"
 	"strings"
 )
 
@@ -177,11 +178,10 @@ func GetAnnotation(annos map[string]string, key string) string {
 
 func AnnotationsAsString(annos map[string]string) string {
 	var opts []string
-	if len(annos) > 0 {
-		for k, v := range annos {
-			opts = append(opts, fmt.Sprintf("%s=%q", k, v))
-		}
+	for k, v := range annos {
+		opts = append(opts, fmt.Sprintf("%s=%q", k, v))
 	}
+	sort.Strings(opts)
 	if len(opts) > 0 {
 		return " (" + strings.Join(opts, ", ") + ")"
 	}
diff --git a/unparser.go b/unparser.go
index a243ffd..2feb9be 100644
--- a/unparser.go
+++ b/unparser.go
@@ -3,6 +3,7 @@ package sadl
 import (
 	"fmt"
 	"path/filepath"
+	"sort"
 	"strings"
 	"text/template"
 )
@@ -43,16 +44,16 @@ func (g *SadlGenerator) Generate() string {
 		},
 		"annotations": func(annos map[string]string) string {
 			s := ""
-			if len(annos) > 0 {
-				s = "\n"
-				for k, v := range annos {
-					if v == "" {
-						s += fmt.Sprintf("%s\n", k)
-					} else {
-						s += fmt.Sprintf("%s %q\n", k, v)
-					}
+			for _, k := range sortedKeys(annos) {
+				if annos[k] == "" {
+					s += fmt.Sprintf("%s\n", k)
+				} else {
+					s += fmt.Sprintf("%s %q\n", k, annos[k])
 				}
 			}
+			if s != "" {
+				s = "\n" + s
+			}
 			return s
 		},
 		"typedef": func(td *TypeDef) string {
@@ -179,9 +180,7 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 				if fd.Required {
 					fopts = append(fopts, "required")
 				}
-				for aname, aval := range fd.Annotations {
-					fopts = append(fopts, fmt.Sprintf("%s=%q", aname, aval))
-				}
+				fopts = append(fopts, annotationOptions(fd.Annotations)...)
 				s += fmt.Sprintf("%s%s%s%s %s%s\n", blockLine, bcom, indent+indentAmount, fd.Name, g.sadlTypeSpec(&fd.TypeSpec, fopts, indent+indentAmount), com)
 			}
 			return s + indent + "}"
@@ -201,9 +200,7 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 					}
 				}
 				fopts := []string{}
-				for aname, aval := range fd.Annotations {
-					fopts = append(fopts, fmt.Sprintf("%s=%q", aname, aval))
-				}
+				fopts = append(fopts, annotationOptions(fd.Annotations)...)
 				s += fmt.Sprintf("%s%s%s %s%s\n", bcom, indentAmount, fd.Name, g.sadlTypeSpec(&fd.TypeSpec, fopts, indent+indentAmount), com)
 			}
 			return s + "}"
@@ -227,58 +224,21 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 }
 
 func (g *SadlGenerator) sadlOperationSpec(op *OperationDef) string {
-	var opts []string
-	if len(op.Annotations) > 0 {
-		for k, v := range op.Annotations {
-			opts = append(opts, fmt.Sprintf("%s=%q", k, v))
-		}
-	}
-	opt := ""
-	if len(opts) > 0 {
-		opt = " (" + strings.Join(opts, ", ") + ")"
-	}
 	var s string
-	s = fmt.Sprintf("operation %s %s {\n", op.Name, opt)
+	s = fmt.Sprintf("operation %s%s {\n", op.Name, optionString(annotationOptions(op.Annotations)))
 	//s = fmt.Sprintf("action %s %s %q%s {\n", hact.Name, hact.Method, hact.Path, opt)
 	if len(op.Inputs) > 0 {
 		s += indentAmount + "inputs {\n"
 		for _, in := range op.Inputs {
-			opts = nil
-			opt = ""
-			com := ""
-			bcom := ""
-			ts := g.sadlTypeSpec(&in.TypeSpec, nil, indentAmount)
-			if in.Required {
-				opts = append(opts, "required")
-			}
-			if in.Comment != "" {
-				if (len(in.Comment) + len(in.Name) + len(ts) + len(opt)) > 100 {
-					bcom = g.FormatComment("   ", in.Comment, 100, false)[3:] + "   "
-				} else {
-					com = " // " + in.Comment
-				}
-			}
-			if len(opts) > 0 {
-				opt = " (" + strings.Join(opts, ", ") + ")"
-			}
-			s += indentAmount + indentAmount + bcom + in.Name + " " + in.Type + opt + com + "\n"
+			s += g.sadlFieldSpec(&in.StructFieldDef, nil, indentAmount+indentAmount)
 		}
 		s += indentAmount + "}\n"
 	}
 	if len(op.Outputs) > 0 {
 		s += indentAmount + "outputs {\n"
 		for _, out := range op.Outputs {
-			com := ""
-			bcom := ""
-			ts := g.sadlTypeSpec(&out.TypeSpec, nil, indentAmount)
-			if out.Comment != "" {
-				if (len(out.Comment) + len(out.Name) + len(ts) + len(opt)) > 100 {
-					bcom = g.FormatComment("   ", out.Comment, 100, false)[3:] + "   "
-				} else {
-					com = " // " + out.Comment
-				}
-			}
-			s += indentAmount + indentAmount + bcom + out.Name + " " + out.Type + opt + com + "\n"
+			fd := &StructFieldDef{Name: out.Name, Comment: out.Comment, Annotations: out.Annotations, TypeSpec: out.TypeSpec}
+			s += g.sadlFieldSpec(fd, nil, indentAmount+indentAmount)
 		}
 		s += indentAmount + "}\n"
 	}
@@ -295,40 +255,36 @@ func (g *SadlGenerator) sadlOperationSpec(op *OperationDef) string {
 
 func (g *SadlGenerator) sadlHttpSpec(hact *HttpDef) string {
 	var opts []string
-	if hact.Name != "" {
-		if hact.Name != actionName(hact) {
+	//the name and resource can be left out where the path implies them
+	implied := &HttpDef{Method: hact.Method, Path: hact.Path}
+	ensureActionName(implied)
+	if hact.Name != implied.Name || hact.Resource != implied.Resource {
+		if hact.Name != "" {
 			opts = append(opts, "operation="+hact.Name)
 		}
-	}
-	if len(hact.Annotations) > 0 {
-		for k, v := range hact.Annotations {
-			opts = append(opts, fmt.Sprintf("%s=%q", k, v))
+		if hact.Resource != "" {
+			opts = append(opts, "resource="+hact.Resource)
 		}
 	}
-	opt := ""
-	if len(opts) > 0 {
-		opt = " (" + strings.Join(opts, ", ") + ")"
-	}
+	opts = append(opts, annotationOptions(hact.Annotations)...)
 	var s string
-	s = fmt.Sprintf("http %s %q%s {\n", hact.Method, hact.Path, opt)
+	s = fmt.Sprintf("http %s %q%s {\n", hact.Method, hact.Path, optionString(opts))
 	//s = fmt.Sprintf("action %s %s %q%s {\n", hact.Name, hact.Method, hact.Path, opt)
 	for _, in := range hact.Inputs {
-		s += indentAmount + g.sadlParamSpec(in)
+		s += g.sadlParamSpec(in, indentAmount)
 	}
-	bcom := ""
-	if hact.Expected == nil {
-		hact.Expected = &HttpExpectedSpec{
-			Status: 200,
+	if hact.Expected != nil {
+		bcom := ""
+		if hact.Expected.Comment != "" {
+			bcom = g.FormatComment(indentAmount, hact.Expected.Comment, 100, false)
 		}
+		opt := optionString(annotationOptions(hact.Expected.Annotations))
+		s += fmt.Sprintf("\n%s%sexpect %d%s {\n", bcom, indentAmount, hact.Expected.Status, opt)
+		for _, out := range hact.Expected.Outputs {
+			s += g.sadlParamSpec(out, indentAmount+indentAmount)
+		}
+		s += indentAmount + "}\n"
 	}
-	if hact.Expected.Comment != "" {
-		bcom = g.FormatComment(indentAmount, hact.Expected.Comment, 100, false)
-	}
-	s += fmt.Sprintf("\n%s%sexpect %d {\n", bcom, indentAmount, hact.Expected.Status)
-	for _, out := range hact.Expected.Outputs {
-		s += indentAmount + indentAmount + g.sadlParamSpec(out)
-	}
-	s += "   }\n"
 	if len(hact.Exceptions) > 0 {
 		s += "\n"
 		for _, exc := range hact.Exceptions {
@@ -336,11 +292,12 @@ func (g *SadlGenerator) sadlHttpSpec(hact *HttpDef) string {
 			if exc.Comment != "" {
 				bcom = g.FormatComment(indentAmount, exc.Comment, 100, false)
 			}
+			opt := optionString(annotationOptions(exc.Annotations))
 			if exc.Status == 0 {
-				s += fmt.Sprintf("%s%sexcept %s\n", bcom, indentAmount, exc.Type)
+				s += fmt.Sprintf("%s%sexcept %s%s\n", bcom, indentAmount, exc.Type, opt)
 			} else {
 				//todo: header outputs
-				s += fmt.Sprintf("%s%sexcept %d %s\n", bcom, indentAmount, exc.Status, exc.Type)
+				s += fmt.Sprintf("%s%sexcept %d %s%s\n", bcom, indentAmount, exc.Status, exc.Type, opt)
 			}
 		}
 	}
@@ -348,32 +305,69 @@ func (g *SadlGenerator) sadlHttpSpec(hact *HttpDef) string {
 	return s
 }
 
-func (g *SadlGenerator) sadlParamSpec(ps *HttpParamSpec) string {
+func (g *SadlGenerator) sadlParamSpec(ps *HttpParamSpec, indent string) string {
+	var opts []string
+	if ps.Header != "" {
+		opts = append(opts, fmt.Sprintf("header=%q", ps.Header))
+	}
+	return g.sadlFieldSpec(&ps.StructFieldDef, opts, indent)
+}
+
+// sadlFieldSpec is the line, or lines, of a field, a variant or a parameter, with its comment.
+func (g *SadlGenerator) sadlFieldSpec(fd *StructFieldDef, more []string, indent string) string {
 	var opts []string
-	if ps.Required {
+	if fd.Required {
 		opts = append(opts, "required")
 	}
-	if ps.Default != nil {
-		opts = append(opts, "default="+ToString(ps.Default))
+	if fd.Default != nil {
+		opts = append(opts, "default="+ToString(fd.Default))
 	}
-	if ps.Header != "" {
-		opts = append(opts, fmt.Sprintf("header=%q", ps.Header))
+	opts = append(opts, more...)
+	opts = append(opts, annotationOptions(fd.Annotations)...)
+	ts := g.sadlTypeSpec(&fd.TypeSpec, opts, indent)
+	com := lineComment(fd.Comment)
+	if len(com)+len(fd.Name)+len(ts) > 100 {
+		return g.FormatComment(indent, fd.Comment, 100, false) + indent + fd.Name + " " + ts + "\n"
 	}
-	opt := ""
-	if len(opts) > 0 {
-		opt = " (" + strings.Join(opts, ", ") + ")"
+	return indent + fd.Name + " " + ts + com + "\n"
+}
+
+// lineComment is the comment at the end of a line.
+func lineComment(comment string) string {
+	s := strings.Join(strings.Fields(comment), " ")
+	if s == "" {
+		return ""
+	}
+	return " // " + s
+}
+
+func sortedKeys(annos map[string]string) []string {
+	var keys []string
+	for k := range annos {
+		keys = append(keys, k)
 	}
-	com := ""
-	bcom := ""
-	ts := g.sadlTypeSpec(&ps.TypeSpec, nil, indentAmount)
-	if ps.Comment != "" {
-		if (len(ps.Comment) + len(ps.Name) + len(ts) + len(opt)) > 100 {
-			bcom = g.FormatComment("   ", ps.Comment, 100, false)[3:] + "   "
+	sort.Strings(keys)
+	return keys
+}
+
+// annotationOptions are the annotations as options, in the order of their names.
+func annotationOptions(annos map[string]string) []string {
+	var opts []string
+	for _, k := range sortedKeys(annos) {
+		if annos[k] == "" {
+			opts = append(opts, k)
 		} else {
-			com = " // " + ps.Comment
+			opts = append(opts, fmt.Sprintf("%s=%q", k, annos[k]))
 		}
 	}
-	return bcom + ps.Name + " " + ts + opt + com + "\n"
+	return opts
+}
+
+func optionString(opts []string) string {
+	if len(opts) == 0 {
+		return ""
+	}
+	return " (" + strings.Join(opts, ", ") + ")"
 }
 
 func stringList(lst []string) string {
-- 
2.43.0


From e8566ee4538c4f9190302555e2e7fcf9e1168156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:40 +0000
Subject: [PATCH 136/197] fix: types are decompiled with all their parameters,
 options, defaults and annotations

---
 unparser.go | 89 +++++++++++++++++++----------------------------------
 1 file changed, 31 insertions(+), 58 deletions(-)

diff --git a/unparser.go b/unparser.go
index 2feb9be..7b49823 100644
--- a/unparser.go
+++ b/unparser.go
@@ -57,7 +57,7 @@ func (g *SadlGenerator) Generate() string {
 			return s
 		},
 		"typedef": func(td *TypeDef) string {
-			return fmt.Sprintf("type %s %s\n", td.Name, g.sadlTypeSpec(&td.TypeSpec, nil, ""))
+			return fmt.Sprintf("type %s %s\n", td.Name, g.sadlTypeSpec(&td.TypeSpec, annotationOptions(td.Annotations), ""))
 		},
 		"operation": func(op *OperationDef) string {
 			return g.sadlOperationSpec(op)
@@ -90,17 +90,12 @@ func (g *SadlGenerator) CreateSadlSource() {
 func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string) string {
 	switch ts.Type {
 	case "Enum":
-		//Q: what if this is a required field, defined inline in a struct?!
 		s := "Enum {\n"
 		for _, el := range ts.Elements {
-			com := ""
-			if el.Comment != "" {
-				com = " // " + el.Comment
-			}
 			annos := AnnotationsAsString(el.Annotations)
-			s = s + indent + indentAmount + el.Symbol + annos + com + "\n"
+			s = s + indent + indentAmount + el.Symbol + annos + lineComment(el.Comment) + "\n"
 		}
-		return s + indent + "}"
+		return s + indent + "}" + optionString(opts)
 	case "String":
 		if ts.Pattern != "" {
 			opts = append(opts, fmt.Sprintf("pattern=%q", ts.Pattern))
@@ -114,6 +109,9 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 		if ts.Values != nil {
 			opts = append(opts, fmt.Sprintf("values=%s", stringList(ts.Values)))
 		}
+		if ts.Reference != "" {
+			opts = append(opts, "reference="+ts.Reference)
+		}
 		sopts := ""
 		if len(opts) > 0 {
 			sopts = " (" + strings.Join(opts, ", ") + ")"
@@ -156,9 +154,8 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 		}
 		return fmt.Sprintf("Map<%s,%s>%s", ts.Keys, ts.Items, sopts)
 	case "Struct":
-		sopt := ""
 		if len(ts.Fields) > 0 {
-			s := fmt.Sprintf("Struct%s {\n", sopt)
+			s := "Struct {\n"
 			blockLine := ""
 			for _, fd := range ts.Fields {
 				if len(fd.Comment) > 60 {
@@ -167,59 +164,35 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 				}
 			}
 			for _, fd := range ts.Fields {
-				com := ""
-				bcom := ""
-				if fd.Comment != "" {
-					if blockLine != "" {
-						bcom = g.FormatComment(indent+indentAmount, fd.Comment, 100, false)
-					} else {
-						com = " // " + fd.Comment
-					}
-				}
-				fopts := []string{}
-				if fd.Required {
-					fopts = append(fopts, "required")
-				}
-				fopts = append(fopts, annotationOptions(fd.Annotations)...)
-				s += fmt.Sprintf("%s%s%s%s %s%s\n", blockLine, bcom, indent+indentAmount, fd.Name, g.sadlTypeSpec(&fd.TypeSpec, fopts, indent+indentAmount), com)
+				s += blockLine + g.sadlFieldSpec(fd, nil, indent+indentAmount)
 			}
-			return s + indent + "}"
+			return s + indent + "}" + optionString(opts)
 		}
-		return fmt.Sprintf("Struct\n")
+		return "Struct" + optionString(opts)
 	case "Union":
-		if true {
-			s := fmt.Sprintf("Union {\n")
-			for _, fd := range ts.Variants {
-				com := ""
-				bcom := ""
-				if fd.Comment != "" {
-					if len(fd.Comment) > 100 {
-						bcom = g.FormatComment(indentAmount, fd.Comment, 100, false)
-					} else {
-						com = " // " + fd.Comment
-					}
-				}
-				fopts := []string{}
-				fopts = append(fopts, annotationOptions(fd.Annotations)...)
-				s += fmt.Sprintf("%s%s%s %s%s\n", bcom, indentAmount, fd.Name, g.sadlTypeSpec(&fd.TypeSpec, fopts, indent+indentAmount), com)
-			}
-			return s + "}"
-		} else {
-			s := fmt.Sprintf("Union<")
-			for i, v := range ts.Variants {
-				if i != 0 {
-					s += ","
-				}
-				s += v.Type
-			}
-			return s + ">"
+		s := "Union {\n"
+		for _, vd := range ts.Variants {
+			fd := &StructFieldDef{Name: vd.Name, Comment: vd.Comment, Annotations: vd.Annotations, TypeSpec: vd.TypeSpec}
+			s += g.sadlFieldSpec(fd, nil, indent+indentAmount)
 		}
-	default:
-		sopts := ""
-		if len(opts) > 0 {
-			sopts = " (" + strings.Join(opts, ", ") + ")"
+		return s + indent + "}" + optionString(opts)
+	case "Bytes":
+		if ts.MinSize != nil {
+			opts = append(opts, fmt.Sprintf("minsize=%d", *ts.MinSize))
 		}
-		return fmt.Sprintf("%s%s", ts.Type, sopts)
+		if ts.MaxSize != nil {
+			opts = append(opts, fmt.Sprintf("maxsize=%d", *ts.MaxSize))
+		}
+		return "Bytes" + optionString(opts)
+	case "UUID":
+		if ts.Reference != "" {
+			opts = append(opts, "reference="+ts.Reference)
+		}
+		return "UUID" + optionString(opts)
+	case "UnitValue":
+		return fmt.Sprintf("UnitValue<%s,%s>%s", ts.Value, ts.Unit, optionString(opts))
+	default:
+		return ts.Type + optionString(opts)
 	}
 }
 
-- 
2.43.0


From 610621f78e700ddbcd60e5d66eb7062a9e7e46ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:40 +0000
Subject: [PATCH 137/197] fix: names, namespaces and versions that are not
 symbols are decompiled as strings, and examples need no name

---
 unparser.go | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/unparser.go b/unparser.go
index 7b49823..389e9ad 100644
--- a/unparser.go
+++ b/unparser.go
@@ -42,6 +42,15 @@ func (g *SadlGenerator) Generate() string {
 		"literal": func(s string) string {
 			return fmt.Sprintf("%q", s)
 		},
+		"symbol": symbolOrString,
+		"compound": func(s string) string {
+			for _, part := range strings.Split(s, ".") {
+				if !isSymbol(part) {
+					return fmt.Sprintf("%q", s)
+				}
+			}
+			return s
+		},
 		"annotations": func(annos map[string]string) string {
 			s := ""
 			for _, k := range sortedKeys(annos) {
@@ -66,7 +75,11 @@ func (g *SadlGenerator) Generate() string {
 			return g.sadlHttpSpec(hact)
 		},
 		"example": func(ed *ExampleDef) string {
-			return fmt.Sprintf("example %s (name=%s) %s\n", ed.Target, ed.Name, Pretty(ed.Example))
+			opt := ""
+			if ed.Name != "" {
+				opt = " (name=" + symbolOrString(ed.Name) + ")"
+			}
+			return fmt.Sprintf("example %s%s %s", ed.Target, opt, Pretty(ed.Example))
 		},
 	}
 	g.Begin()
@@ -314,6 +327,23 @@ func lineComment(comment string) string {
 	return " // " + s
 }
 
+func isSymbol(s string) bool {
+	for i, ch := range s {
+		if ch != '_' && !IsLowercaseLetter(ch) && !IsUppercaseLetter(ch) && (i == 0 || !IsDigit(ch)) {
+			return false
+		}
+	}
+	return s != ""
+}
+
+// symbolOrString is the text as a symbol, if it is one.
+func symbolOrString(s string) string {
+	if isSymbol(s) {
+		return s
+	}
+	return fmt.Sprintf("%q", s)
+}
+
 func sortedKeys(annos map[string]string) []string {
 	var keys []string
 	for k := range annos {
@@ -360,10 +390,10 @@ func stringList(lst []string) string {
 	return result + end + "]"
 }
 
-const sadlTemplate = `{{if .Comment}}{{blockComment .Comment}}{{end}}{{if .Namespace}}namespace {{.Namespace}}
-{{end}}{{if .Name}}name {{.Name}}
+const sadlTemplate = `{{if .Comment}}{{blockComment .Comment}}{{end}}{{if .Namespace}}namespace {{compound .Namespace}}
+{{end}}{{if or .Name .Comment}}name {{symbol .Name}}
 {{end}}{{if .Base}}base {{literal .Base}}
-{{end}}{{if .Version}}version "{{.Version}}"
+{{end}}{{if .Version}}version {{literal .Version}}
 {{end}}{{annotations .Annotations}}{{if .Types}}{{range .Types}}
 {{blockComment .Comment}}{{typedef .}}{{end}}{{end}}{{if .Operations}}{{range .Operations}}
 {{blockComment .Comment}}{{operation .}}{{end}}{{end}}{{if .Http}}{{range .Http}}
-- 
2.43.0


From 504871797cae0b6414f678ba894cc37bb55a868e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:51 +0000
Subject: [PATCH 138/197] fix: enum values with quotes or backslashes are
 escaped in generated Go and Java code

---
 golang/golang_model.go | 2 +-
 java/export_java.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 2f36c1e..4206af5 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -245,7 +245,7 @@ const (
 )
 
 var names{{.Name}} = []string{{openBrace}}{{range .Elements}}
-    {{.Symbol}}: "{{enumValue .}}",{{end}}
+    {{.Symbol}}: {{printf "%q" (enumValue .)}},{{end}}
 }
 
 func (e {{.Name}}) String() string {
diff --git a/java/export_java.go b/java/export_java.go
index 49913be..e49970e 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -502,7 +502,7 @@ func (gen *Generator) CreateEnumPojo(ts *sadl.TypeSpec, className string) {
 		if val == "" {
 			val = sym
 		}
-		gen.Emit("    " + sym + "(\"" + val + "\")" + delim + comment)
+		gen.Emit("    " + sym + "(" + fmt.Sprintf("%q", val) + ")" + delim + comment)
 	}
 	gen.Emit("\n")
 	gen.Emit("    private String repr;\n\n")
-- 
2.43.0


From 7309138961a80d3302d9606cad780a76528c0490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:53 +0000
Subject: [PATCH 139/197] fix: comments with a backslash before a u do not
 break generated Java code

---
 java/export_java.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/java/export_java.go b/java/export_java.go
index e49970e..2d7ba4b 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"regexp"
 	"sort"
 	"strconv"
 	"strings"
@@ -190,6 +191,19 @@ func (gen *Generator) CreatePojoFromDef(td *sadl.TypeDef, exceptions map[string]
 	gen.CreatePojo(&td.TypeSpec, className, td.Comment, exceptions)
 }
 
+var unicodeEscape = regexp.MustCompile(`\\+u`)
+
+// FormatComment escapes what Java would take for a malformed Unicode escape, which it does not allow even in comments.
+func (gen *Generator) FormatComment(indent, comment string, maxcol int, extraPad bool) string {
+	comment = unicodeEscape.ReplaceAllStringFunc(comment, func(s string) string {
+		if len(s)%2 == 0 {
+			return "\\" + s
+		}
+		return s
+	})
+	return gen.Generator.FormatComment(indent, comment, maxcol, extraPad)
+}
+
 func (gen *Generator) CreatePojo(ts *sadl.TypeSpec, className, comment string, exceptions map[string]string) {
 	if gen.Err != nil {
 		return
-- 
2.43.0


From 08749c069dffd694bdf95d67236457428c09b49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:07 +0000
Subject: [PATCH 140/197] fix: parameters of a Swagger path are imported with
 each of its operations

---
 openapi/import_swagger.go | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index 0d82106..5101f56 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -68,14 +68,15 @@ func toV3Paths(model *Model, v2 *sadl.Data, defConsumes []string, defProduces []
 	paths := make(map[string]*PathItem, 0)
 	for k, v := range v2.AsMap() {
 		vd := sadl.AsData(v)
+		shared := vd.GetArray("parameters")
 		pi := &PathItem{
-			Get:     toV3Operation(model, vd.GetData("get"), defConsumes, defProduces),
-			Delete:  toV3Operation(model, vd.GetData("delete"), defConsumes, defProduces),
-			Put:     toV3Operation(model, vd.GetData("put"), defConsumes, defProduces),
-			Post:    toV3Operation(model, vd.GetData("post"), defConsumes, defProduces),
-			Patch:   toV3Operation(model, vd.GetData("patch"), defConsumes, defProduces),
-			Head:    toV3Operation(model, vd.GetData("head"), defConsumes, defProduces),
-			Options: toV3Operation(model, vd.GetData("options"), defConsumes, defProduces),
+			Get:     toV3Operation(model, vd.GetData("get"), shared, defConsumes, defProduces),
+			Delete:  toV3Operation(model, vd.GetData("delete"), shared, defConsumes, defProduces),
+			Put:     toV3Operation(model, vd.GetData("put"), shared, defConsumes, defProduces),
+			Post:    toV3Operation(model, vd.GetData("post"), shared, defConsumes, defProduces),
+			Patch:   toV3Operation(model, vd.GetData("patch"), shared, defConsumes, defProduces),
+			Head:    toV3Operation(model, vd.GetData("head"), shared, defConsumes, defProduces),
+			Options: toV3Operation(model, vd.GetData("options"), shared, defConsumes, defProduces),
 			//etc
 		}
 		paths[k] = pi
@@ -83,7 +84,7 @@ func toV3Paths(model *Model, v2 *sadl.Data, defConsumes []string, defProduces []
 	return paths
 }
 
-func toV3Operation(model *Model, v2 *sadl.Data, defConsumes []string, defProduces []string) *Operation {
+func toV3Operation(model *Model, v2 *sadl.Data, shared []interface{}, defConsumes []string, defProduces []string) *Operation {
 	if v2.IsNil() {
 		return nil
 	}
@@ -99,7 +100,7 @@ func toV3Operation(model *Model, v2 *sadl.Data, defConsumes []string, defProduce
 		consumes = defConsumes
 	}
 	var params []*Parameter
-	for _, param := range v2.GetArray("parameters") {
+	for _, param := range swaggerParameters(v2.GetArray("parameters"), shared) {
 		paramd := sadl.AsData(param)
 		if paramd.GetString("in") == "body" {
 			op.RequestBody = &RequestBody{
@@ -141,6 +142,25 @@ func toV3Operation(model *Model, v2 *sadl.Data, defConsumes []string, defProduce
 	return op
 }
 
+// the parameters of an operation, and those of its path that it does not override.
+func swaggerParameters(params []interface{}, shared []interface{}) []interface{} {
+	merged := append([]interface{}{}, params...)
+	for _, param := range shared {
+		pd := sadl.AsData(param)
+		overridden := false
+		for _, p := range params {
+			d := sadl.AsData(p)
+			if d.GetString("in") == pd.GetString("in") && (d.GetString("name") == pd.GetString("name") || d.GetString("in") == "body") {
+				overridden = true
+			}
+		}
+		if !overridden {
+			merged = append(merged, param)
+		}
+	}
+	return merged
+}
+
 func toV3Response(mediaTypes []string, v2 *sadl.Data) *Response {
 	return &Response{
 		Description: v2.GetString("description"),
-- 
2.43.0


From ab7cb5c4a262541c501c62a0d8846457c3dae4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:54 +0000
Subject: [PATCH 141/197] fix: examples of requests and responses are exported
 to OpenAPI by the names of the inputs and outputs

---
 openapi/export_openapi.go | 58 ++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 79dfa3f..b16b3b3 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -286,10 +286,15 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 			if strings.HasSuffix(ed.Target, "Request") {
 				hdefName := sadl.Uncapitalize(ed.Target[:len(ed.Target)-7])
 				op := gen.FindOperation(oas, hdefName)
-				if op != nil {
+				hact := model.FindHttp(hdefName)
+				if op != nil && hact != nil {
 					fields, _ := ed.Example.(map[string]interface{})
-					for k, v := range fields {
-						if k == "body" {
+					for _, in := range hact.Inputs {
+						v, ok := fields[in.Name]
+						if !ok {
+							continue
+						}
+						if !in.Path && in.Query == "" && in.Header == "" {
 							if op.RequestBody == nil {
 								continue
 							}
@@ -306,7 +311,7 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 							}
 						} else {
 							for _, param := range op.Parameters {
-								if param.Name == k {
+								if isParameter(param, in) {
 									if ed.Name == "" {
 										param.Example = v
 									} else {
@@ -325,17 +330,19 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 			} else if strings.HasSuffix(ed.Target, "Response") {
 				hdefName := sadl.Uncapitalize(ed.Target[:len(ed.Target)-8])
 				op := gen.FindOperation(oas, hdefName)
-				if op != nil {
+				hact := model.FindHttp(hdefName)
+				if op != nil && hact != nil {
 					fields, _ := ed.Example.(map[string]interface{})
-					for k, v := range fields {
-						if k == "body" {
-							hact := model.FindHttp(hdefName)
+					if hact.Expected == nil {
+						continue
+					}
+					for _, out := range hact.Expected.Outputs {
+						v, ok := fields[out.Name]
+						//headers of a response have no examples in this model
+						if ok && out.Header == "" {
 							//FIXME: somehow the example name must include the status to use here
 							//FIXME: currently the parser only handles Request and Response, not Exceptxxx
-							sstatus := "200"
-							if hact.Expected != nil {
-								sstatus = fmt.Sprintf("%v", hact.Expected.Status)
-							}
+							sstatus := fmt.Sprintf("%v", hact.Expected.Status)
 							tmp := op.Responses[sstatus].Content["application/json"]
 							if tmp == nil {
 								continue
@@ -350,22 +357,6 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 									Value: v,
 								}
 							}
-
-						} else {
-							for _, param := range op.Parameters {
-								if param.Name == k {
-									if ed.Name == "" {
-										param.Example = v
-									} else {
-										if param.Examples == nil {
-											param.Examples = make(map[string]*Example, 0)
-										}
-										param.Examples[ed.Name] = &Example{
-											Value: v,
-										}
-									}
-								}
-							}
 						}
 					}
 				} else {
@@ -379,6 +370,17 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 	return oas, nil
 }
 
+// true if the parameter is the one that was exported for the input.
+func isParameter(param *Parameter, in *sadl.HttpParamSpec) bool {
+	if in.Path {
+		return param.In == "path" && param.Name == in.Name
+	}
+	if in.Query != "" {
+		return param.In == "query" && param.Name == in.Query
+	}
+	return param.In == "header" && param.Name == in.Header
+}
+
 func (gen *Generator) FindOperation(model *Model, opId string) *Operation {
 	for _, pathItem := range model.Paths {
 		for _, op := range []*Operation{pathItem.Get, pathItem.Put, pathItem.Delete, pathItem.Post, pathItem.Head, pathItem.Patch, pathItem.Options} {
-- 
2.43.0


From cf35cf3eeeb99b263e8f6a417163c7459f2481fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:28 +0000
Subject: [PATCH 142/197] fix: OpenAPI and Swagger schemas with allOf, anyOf or
 not are refused, and not imported as something else

---
 openapi/import_openapi.go | 5 ++++-
 openapi/import_swagger.go | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 3585795..6a048bb 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -255,6 +255,9 @@ func oasTypeRef(oasSchema *Schema) string {
 func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 	var err error
 	var ts sadl.TypeSpec
+	if len(oasSchema.AllOf) > 0 || len(oasSchema.AnyOf) > 0 || oasSchema.Not != nil {
+		return ts, fmt.Errorf("Schemas with 'allOf', 'anyOf' or 'not' are not supported: %q", name)
+	}
 	if oasSchema.Example != nil {
 		ex := &sadl.ExampleDef{
 			Target:  name,
@@ -419,7 +422,7 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 				return ts, nil
 			}
 		}
-		if oasSchema.Type == "" && len(oasSchema.Properties) == 0 && len(oasSchema.AllOf) == 0 && len(oasSchema.AnyOf) == 0 {
+		if oasSchema.Type == "" && len(oasSchema.Properties) == 0 {
 			ts.Type = "Any"
 			return ts, nil
 		}
diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index 5101f56..6ac99be 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -223,6 +223,9 @@ func toV3Schema(v2Any interface{}) *Schema {
 	schema.Description = v2.GetString("description")
 	schema.Type = v2.GetString("type")
 	schema.Required = v2.GetStringArray("required")
+	for _, v := range v2.GetArray("allOf") {
+		schema.AllOf = append(schema.AllOf, toV3Schema(v))
+	}
 	switch schema.Type {
 	case "object":
 		schema.Properties = make(map[string]*Schema, 0)
-- 
2.43.0


From 44f090f13f279c79003d88302526d46096df190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:54 +0000
Subject: [PATCH 143/197] fix: generated Go services that use the library
 compile when they have timestamps

With the runtime setting, parameters and headers of type Timestamp were of
the library's type in the model, and of a generated one in the server and
the client. Now Timestamp is an alias of the library's type.
---
 golang/export_golang.go |  9 ++-------
 golang/golang_model.go  | 13 +++++++++++--
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/golang/export_golang.go b/golang/export_golang.go
index fefabc8..f67ddd5 100644
--- a/golang/export_golang.go
+++ b/golang/export_golang.go
@@ -201,13 +201,8 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 		kts := gen.Model.FindType(ts.Keys)
 		return "map[" + gen.nativeTypeName(&kts.TypeSpec, ts.Keys) + "]" + gen.nativeTypeName(&its.TypeSpec, ts.Items)
 	case "Timestamp":
-		if gen.runtime {
-			gen.addImport("github.com/boynton/sadl")
-			return "*sadl." + name
-		} else {
-			gen.createTimestamp = true
-			return "*" + name
-		}
+		gen.createTimestamp = true //with the runtime, an alias of its type
+		return "*" + name
 	case "UnitValue":
 		if gen.runtime {
 			gen.addImport("github.com/boynton/sadl")
diff --git a/golang/golang_model.go b/golang/golang_model.go
index 4206af5..92d9860 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -382,11 +382,17 @@ func (gen *Generator) EmitTimestamp() {
 	if gen.Err != nil {
 		return
 	}
-	gen.addImport("encoding/json")
 	gen.addImport("fmt")
 	gen.addImport("strings")
 	gen.addImport("time")
-	gen.Emit(timestamp)
+	if gen.runtime {
+		gen.addImport("github.com/boynton/sadl")
+		gen.Emit("\ntype Timestamp = sadl.Timestamp\n")
+	} else {
+		gen.addImport("encoding/json")
+		gen.Emit(timestamp)
+	}
+	gen.Emit(timestampParser)
 }
 
 var timestamp = `
@@ -422,6 +428,9 @@ func (ts *Timestamp) UnmarshalJSON(b []byte) error {
 	return err
 }
 
+`
+
+var timestampParser = `
 func TimestampFromString(s string) *Timestamp {
 	ts, err := ParseTimestamp(s)
    if err != nil {
-- 
2.43.0


From e93839cefe19b7433721c9b3f3f76b80e3b542ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:01 +0000
Subject: [PATCH 144/197] fix: Bool, Bytes, Timestamp and Any types can be
 exported to Smithy

---
 smithy/export_smithy.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index d378185..871a88d 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -399,6 +399,8 @@ func typeReferenceByName(ns string, name string) string {
 		return "smithy.api#Map"
 	case "Struct":
 		return "smithy.api#Document" //naked struct only.
+	case "Any", "":
+		return "smithy.api#Document"
 	default:
 		return ns + "#" + name
 	}
@@ -519,9 +521,16 @@ func defineShapeFromTypeSpec(model *sadl.Model, ns string, shapes *smithylib.Sha
 		shape = shapeFromMap(model, ns, shapes, name, ts)
 	case "UUID":
 		shape = *uuidShape()
+	case "Bytes":
+		shape = shapeFromBytes(ts)
+	case "Bool":
+		shape = smithylib.Shape{Type: "boolean"}
+	case "Timestamp":
+		shape = smithylib.Shape{Type: "timestamp"}
+	case "Any":
+		shape = smithylib.Shape{Type: "document"}
 	default:
-		fmt.Println("So far:", sadl.Pretty(model))
-		panic("handle this type:" + sadl.Pretty(ts))
+		return fmt.Errorf("Smithy has no equivalent for type %s: %s", name, ts.Type)
 	}
 	if comment != "" {
 		ensureShapeTraits(&shape).Put("smithy.api#documentation", comment)
@@ -652,6 +661,17 @@ func shapeFromString(ts *sadl.TypeSpec) smithylib.Shape {
 	return shape
 }
 
+func shapeFromBytes(ts *sadl.TypeSpec) smithylib.Shape {
+	shape := smithylib.Shape{
+		Type: "blob",
+	}
+	l := lengthTrait(ts.MinSize, ts.MaxSize)
+	if l != nil {
+		ensureShapeTraits(&shape).Put("smithy.api#length", l)
+	}
+	return shape
+}
+
 func shapeFromNumber(ts *sadl.TypeSpec) smithylib.Shape {
 	shape := smithylib.Shape{}
 	switch ts.Type {
-- 
2.43.0


From e363866bd3c39f8510c71499632494fe52233c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:14 +0000
Subject: [PATCH 145/197] fix: Smithy fields with an inline array, map, enum or
 struct refer to a shape for it

---
 smithy/export_smithy.go | 99 ++++++++++++-----------------------------
 1 file changed, 29 insertions(+), 70 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 871a88d..b4ae73c 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -418,67 +418,16 @@ func getAnnotation(annos map[string]string, key string) string {
 	return ""
 }
 
-func listTypeReference(model *sadl.Model, ns string, shapes *smithylib.Shapes, prefix string, fd *sadl.StructFieldDef) string {
-	ftype := capitalize(prefix) + capitalize(fd.Name)
-	td := model.FindType(ftype)
-	if td != nil {
-		fmt.Printf("Inline defs not allowed, synthesize %q to refer to: %s\n", ftype, sadl.Pretty(fd))
-		panic("Already have one with that name!!!")
+// inlineTypeReference defines a shape for the type that a field defines in place, and returns a reference to it.
+func inlineTypeReference(model *sadl.Model, ns string, shapes *smithylib.Shapes, prefix string, fd *sadl.StructFieldDef) (string, error) {
+	base := capitalize(prefix) + capitalize(fd.Name)
+	ftype := base
+	for n := 2; model.FindType(ftype) != nil || shapes.Get(ns+"#"+ftype) != nil; n++ {
+		ftype = fmt.Sprintf("%s%d", base, n)
 	}
-	ltype := "list"
-	if getAnnotation(fd.Annotations, "x_unique") == "true" {
-		ltype = "set"
-	}
-	shape := smithylib.Shape{
-		Type: ltype,
-	}
-	shape.Member = &smithylib.Member{
-		Target: typeReferenceByName(ns, fd.Items),
-	}
-	ensureShapeTraits(&shape).Put("smithy.api#documentation", "[autogenerated for field '"+fd.Name+"' in struct '"+prefix+"']")
-	shapes.Put(ns+"#"+ftype, &shape)
-	return ftype
-}
-
-func mapTypeReference(model *sadl.Model, ns string, shapes *smithylib.Shapes, prefix string, fd *sadl.StructFieldDef) string {
-	ftype := capitalize(prefix) + capitalize(fd.Name)
-	td := model.FindType(ftype)
-	if td != nil {
-		fmt.Printf("Inline defs not allowed, synthesize %q to refer to: %s\n", ftype, sadl.Pretty(fd))
-		panic("Already have one with that name!!!")
-	}
-	shape := smithylib.Shape{
-		Type: "map",
-	}
-	shape.Key = &smithylib.Member{
-		Target: typeReferenceByName(ns, fd.Keys),
-	}
-	shape.Value = &smithylib.Member{
-		Target: typeReferenceByName(ns, fd.Items),
-	}
-	ensureShapeTraits(&shape).Put("smithy.api#documentation", "[autogenerated for field '"+fd.Name+"' in struct '"+prefix+"']")
-	shapes.Put(ns+"#"+ftype, &shape)
-	return ftype
-}
-
-func enumTypeReference(model *sadl.Model, ns string, shapes *smithylib.Shapes, prefix string, fd *sadl.StructFieldDef) string {
-	ftype := capitalize(prefix) + capitalize(fd.Name)
-	td := model.FindType(ftype)
-	if td != nil {
-		fmt.Printf("Inline defs not allowed, synthesize %q to refer to: %s\n", ftype, sadl.Pretty(fd))
-		panic("Already have one with that name!!!")
-	}
-	ltype := "string"
-	shape := smithylib.Shape{
-		Type: ltype,
-	}
-	shape.Member = &smithylib.Member{
-		Target: typeReferenceByName(ns, fd.Items),
-	}
-	ensureShapeTraits(&shape).Put("smithy.api#enum", enumTrait(&fd.TypeSpec))
-	ensureShapeTraits(&shape).Put("smithy.api#documentation", "[autogenerated for field '"+fd.Name+"' in struct '"+prefix+"']")
-	shapes.Put(ns+"#"+ftype, &shape)
-	return ftype
+	comment := "[autogenerated for field '" + fd.Name + "' in struct '" + prefix + "']"
+	err := defineShapeFromTypeSpec(model, ns, shapes, &fd.TypeSpec, ftype, comment, fd.Annotations)
+	return ns + "#" + ftype, err
 }
 
 func capitalize(s string) string {
@@ -512,7 +461,11 @@ func defineShapeFromTypeSpec(model *sadl.Model, ns string, shapes *smithylib.Sha
 	case "Enum":
 		shape = shapeFromEnum(ts)
 	case "Struct":
-		shape = shapeFromStruct(model, ns, shapes, name, ts)
+		var err error
+		shape, err = shapeFromStruct(model, ns, shapes, name, ts)
+		if err != nil {
+			return err
+		}
 	case "Array":
 		shape = shapeFromArray(model, ns, shapes, name, ts, annos)
 	case "Union":
@@ -599,20 +552,26 @@ func shapeFromMap(model *sadl.Model, ns string, shapes *smithylib.Shapes, tname
 	return shape
 }
 
-func shapeFromStruct(model *sadl.Model, ns string, shapes *smithylib.Shapes, tname string, ts *sadl.TypeSpec) smithylib.Shape {
+func shapeFromStruct(model *sadl.Model, ns string, shapes *smithylib.Shapes, tname string, ts *sadl.TypeSpec) (smithylib.Shape, error) {
 	shape := smithylib.Shape{
 		Type: "structure",
 	}
 	members := smithylib.NewMembers()
 	for _, fd := range ts.Fields {
+		inline := false
 		ftype := typeReference(ns, &fd.TypeSpec)
-		switch ftype {
-		case "List":
-			ftype = listTypeReference(model, ns, shapes, tname, fd)
-		case "Map":
-			ftype = mapTypeReference(model, ns, shapes, tname, fd)
-		case "Enum":
-			ftype = enumTypeReference(model, ns, shapes, tname, fd)
+		switch fd.Type {
+		case "Array", "Map", "Enum":
+			inline = true
+		case "Struct":
+			inline = len(fd.Fields) > 0
+		}
+		if inline {
+			var err error
+			ftype, err = inlineTypeReference(model, ns, shapes, tname, fd)
+			if err != nil {
+				return shape, err
+			}
 		}
 		member := &smithylib.Member{
 			Target: ftype,
@@ -623,7 +582,7 @@ func shapeFromStruct(model *sadl.Model, ns string, shapes *smithylib.Shapes, tna
 		members.Put(fd.Name, member)
 	}
 	shape.Members = members
-	return shape
+	return shape, nil
 }
 
 func shapeFromUnion(model *sadl.Model, ns string, shapes *smithylib.Shapes, tname string, ts *sadl.TypeSpec) smithylib.Shape {
-- 
2.43.0


From 11260af48c3936377222ee36e01bc46d0ba520db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:14 +0000
Subject: [PATCH 146/197] fix: the constraints of a field are exported to
 Smithy

---
 smithy/export_smithy.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index b4ae73c..3b41852 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -579,12 +579,31 @@ func shapeFromStruct(model *sadl.Model, ns string, shapes *smithylib.Shapes, tna
 		if fd.Required {
 			ensureMemberTraits(member).Put("smithy.api#required", true)
 		}
+		if !inline {
+			constrainMember(member, &fd.TypeSpec)
+		}
 		members.Put(fd.Name, member)
 	}
 	shape.Members = members
 	return shape, nil
 }
 
+// constrainMember adds the constraints that a field adds to its type.
+func constrainMember(member *smithylib.Member, ts *sadl.TypeSpec) {
+	if l := lengthTrait(ts.MinSize, ts.MaxSize); l != nil {
+		ensureMemberTraits(member).Put("smithy.api#length", l)
+	}
+	if r := rangeTrait(ts.Min, ts.Max); r != nil {
+		ensureMemberTraits(member).Put("smithy.api#range", r)
+	}
+	if ts.Pattern != "" {
+		ensureMemberTraits(member).Put("smithy.api#pattern", ts.Pattern)
+	}
+	if len(ts.Values) > 0 {
+		ensureMemberTraits(member).Put("smithy.api#enum", enumTrait(ts))
+	}
+}
+
 func shapeFromUnion(model *sadl.Model, ns string, shapes *smithylib.Shapes, tname string, ts *sadl.TypeSpec) smithylib.Shape {
 	shape := smithylib.Shape{
 		Type: "union",
-- 
2.43.0


From b6d6af78347f0f5b7d6b5c57c5c83e35b7a04aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:14 +0000
Subject: [PATCH 147/197] fix: Smithy unions refer to base types by their
 Smithy names

---
 smithy/export_smithy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 3b41852..270b520 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -613,7 +613,7 @@ func shapeFromUnion(model *sadl.Model, ns string, shapes *smithylib.Shapes, tnam
 		//		fd := model.FindType(vtype.Type)
 		//		ftype := typeReference(&fd.TypeSpec)
 		member := &smithylib.Member{
-			Target: EnsureNamespaced(ns, vd.Type),
+			Target: typeReferenceByName(ns, vd.Type),
 		}
 		ensureMemberTraits(member).Put("smithy.api#documentation", vd.Comment)
 		members.Put(vd.Name, member)
-- 
2.43.0


From 690a4066e1429bc4c43a49ff04dc77be239d2731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:14 +0000
Subject: [PATCH 148/197] fix: the size limits of maps are exported to Smithy

---
 smithy/export_smithy.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 270b520..e7ac384 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -545,10 +545,10 @@ func shapeFromMap(model *sadl.Model, ns string, shapes *smithylib.Shapes, tname
 		Key:   &key,
 		Value: &value,
 	}
-	//	l := lengthTrait(ts.MinSize, ts.MaxSize)
-	//	if l != nil {
-	//		ensureShapeTraits(&shape)["smithy.api#length"] = l
-	//	}
+	l := lengthTrait(ts.MinSize, ts.MaxSize)
+	if l != nil {
+		ensureShapeTraits(&shape).Put("smithy.api#length", l)
+	}
 	return shape
 }
 
-- 
2.43.0


From ab2262b87f046241687184a9d3ae343cd39abdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:14 +0000
Subject: [PATCH 149/197] fix: required inputs and outputs are required in the
 Smithy model too

---
 smithy/export_smithy.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index e7ac384..8468716 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -154,7 +154,6 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 				}
 				if in.Path {
 					ensureMemberTraits(mem).Put("smithy.api#httpLabel", true)
-					ensureMemberTraits(mem).Put("smithy.api#required", true)
 				} else if in.Query != "" {
 					ensureMemberTraits(mem).Put("smithy.api#httpQuery", in.Query)
 				} else if in.Header != "" {
@@ -162,6 +161,9 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 				} else {
 					ensureMemberTraits(mem).Put("smithy.api#httpPayload", true)
 				}
+				if in.Required || in.Path {
+					ensureMemberTraits(mem).Put("smithy.api#required", true)
+				}
 				inShape.Members.Put(in.Name, mem)
 			}
 			ast.Shapes.Put(shape.Input.Target, &inShape)
@@ -184,6 +186,9 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 				} else {
 					ensureMemberTraits(mem).Put("smithy.api#httpPayload", true)
 				}
+				if out.Required {
+					ensureMemberTraits(mem).Put("smithy.api#required", true)
+				}
 				outShape.Members.Put(out.Name, mem)
 			}
 			ast.Shapes.Put(shape.Output.Target, &outShape)
@@ -247,6 +252,9 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 				mem := &smithylib.Member{
 					Target: typeReferenceByName(ns, in.Type),
 				}
+				if in.Required {
+					ensureMemberTraits(mem).Put("smithy.api#required", true)
+				}
 				inShape.Members.Put(in.Name, mem)
 			}
 			ast.Shapes.Put(shape.Input.Target, &inShape)
-- 
2.43.0


From cdb6b8590974588f27cb3ed5c69f2ac326eec46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:14 +0000
Subject: [PATCH 150/197] fix: the exceptions of operations are exported to
 Smithy

---
 smithy/export_smithy.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 8468716..2db60c9 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -275,11 +275,9 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 			ast.Shapes.Put(shape.Output.Target, &outShape)
 		}
 		if len(od.Exceptions) > 0 {
-			var excs []string
 			for _, exc := range od.Exceptions {
-				excs = append(excs, exc)
+				shape.Errors = append(shape.Errors, &smithylib.ShapeRef{Target: typeReferenceByName(ns, exc)})
 			}
-			//?
 		}
 
 		ensureShapeTraits(&shape).Put("smithy.api#documentation", od.Comment)
-- 
2.43.0


From 4dfd05f28e63b5acc0c92998aa71df708984d4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:14 +0000
Subject: [PATCH 151/197] fix: exporting an action without an expected response
 to Smithy does not crash

---
 smithy/export_smithy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 2db60c9..7f95799 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -169,7 +169,7 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 			ast.Shapes.Put(shape.Input.Target, &inShape)
 		}
 
-		if len(hd.Expected.Outputs) > 0 {
+		if hd.Expected != nil && len(hd.Expected.Outputs) > 0 {
 			//if we have any outputs, define this
 			shape.Output = &smithylib.ShapeRef{Target: prefix + name + outputSuffix}
 			outShape := smithylib.Shape{
-- 
2.43.0


From cbf081c2a4f9442232afa84f4c9eda402bf4577a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:14 +0000
Subject: [PATCH 152/197] fix: only a structure becomes the payload of an error
 in a Smithy model

---
 smithy/export_smithy.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 7f95799..c309471 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -222,6 +222,9 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 					if tmp.Members != nil && tmp.Members.Length() == 1 {
 						for _, k := range tmp.Members.Keys() {
 							m := tmp.Members.Get(k)
+							if payload := ast.Shapes.Get(m.Target); payload == nil || payload.Type != "structure" {
+								continue
+							}
 							ensureMemberTraits(m).Put("smithy.api#httpPayload", true)
 						}
 					}
-- 
2.43.0


From 6fa2edcc1f7ec666e6a1812ea1001c3ae045b41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:14 +0000
Subject: [PATCH 153/197] fix: a malformed x_paginated annotation does not
 crash the Smithy export

---
 smithy/export_smithy.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index c309471..8c14ed8 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -738,8 +738,10 @@ func paginatedTrait(sval string) map[string]interface{} {
 	lst := strings.Split(sval, ",")
 	m := make(map[string]interface{}, 0)
 	for _, item := range lst {
-		kv := strings.Split(item, "=")
-		m[kv[0]] = kv[1]
+		kv := strings.SplitN(item, "=", 2)
+		if len(kv) == 2 {
+			m[kv[0]] = kv[1]
+		}
 	}
 	return m
 }
-- 
2.43.0


From 22fe0a23df226f6a894031cc8ad06fcb86086881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:14 +0000
Subject: [PATCH 154/197] fix: the examples of a Smithy operation come in the
 order of the model, and not at random

---
 smithy/export_smithy.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 8c14ed8..beeff54 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -316,6 +316,7 @@ func sadlExamplesForAction(model *sadl.Model, hdef *sadl.HttpDef) []map[string]i
 	reqType := opName + "Request"
 	resType := opName + "Response"
 	namedExamples := make(map[string]map[string]interface{}, 0)
+	var names []string
 	//each named example should be a pair of req/res, or req/exc
 	for _, ex := range model.Examples {
 		if ex.Target == reqType {
@@ -325,6 +326,9 @@ func sadlExamplesForAction(model *sadl.Model, hdef *sadl.HttpDef) []map[string]i
 			if c != "" {
 				e["documentation"] = c
 			}
+			if _, ok := namedExamples[ex.Name]; !ok {
+				names = append(names, ex.Name)
+			}
 			namedExamples[ex.Name] = e
 		}
 	}
@@ -348,7 +352,8 @@ func sadlExamplesForAction(model *sadl.Model, hdef *sadl.HttpDef) []map[string]i
 		}
 	}
 	result := make([]map[string]interface{}, 0)
-	for k, v := range namedExamples {
+	for _, k := range names {
+		v := namedExamples[k]
 		v["title"] = k
 		result = append(result, v)
 	}
-- 
2.43.0


From 244ca89db71bfdb3a78837529d7d5f67f398a1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:14 +0000
Subject: [PATCH 155/197] fix: error examples in Smithy have a shape ID and
 content; no example crashes the export

---
 smithy/export_smithy.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index beeff54..f833fa2 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -311,7 +311,7 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 	return ast, nil
 }
 
-func sadlExamplesForAction(model *sadl.Model, hdef *sadl.HttpDef) []map[string]interface{} {
+func sadlExamplesForAction(ns string, model *sadl.Model, hdef *sadl.HttpDef) []map[string]interface{} {
 	opName := sadl.Capitalize(hdef.Name)
 	reqType := opName + "Request"
 	resType := opName + "Response"
@@ -322,7 +322,7 @@ func sadlExamplesForAction(model *sadl.Model, hdef *sadl.HttpDef) []map[string]i
 		if ex.Target == reqType {
 			c := ex.Comment
 			e := make(map[string]interface{}, 0)
-			e["input"] = ex.Example.(map[string]interface{})
+			e["input"] = ex.Example
 			if c != "" {
 				e["documentation"] = c
 			}
@@ -336,13 +336,13 @@ func sadlExamplesForAction(model *sadl.Model, hdef *sadl.HttpDef) []map[string]i
 		if ex.Target != reqType {
 			if data, ok := namedExamples[ex.Name]; ok {
 				if ex.Target == resType {
-					data["output"] = ex.Example.(map[string]interface{})
+					data["output"] = ex.Example
 				} else {
 					for _, exc := range hdef.Exceptions {
 						if exc.Type == ex.Target {
 							tmp := make(map[string]interface{}, 0)
-							tmp["error"] = ex.Example.(map[string]interface{})
-							tmp["shapeId"] = ex.Target
+							tmp["shapeId"] = typeReferenceByName(ns, ex.Target)
+							tmp["content"] = ex.Example
 							data["error"] = tmp
 							break
 						}
@@ -366,7 +366,7 @@ func examplesFromSADL(ns string, ast *smithylib.AST, model *sadl.Model) {
 		if ns != "" {
 			name = ns + "#" + name
 		}
-		examples := sadlExamplesForAction(model, hact)
+		examples := sadlExamplesForAction(ns, model, hact)
 		shape := ast.Shapes.Get(name)
 		if shape == nil {
 			continue
-- 
2.43.0


From 195f8fbba5a225e00994d4fd9391343524cca42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:14 +0000
Subject: [PATCH 156/197] fix: names that clash in a Smithy model are reported,
 and do not replace a definition

---
 smithy/export_smithy.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index f833fa2..fbe8ca6 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -143,6 +143,9 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 		//if we have any inputs, define this
 		if len(hd.Inputs) > 0 {
 			shape.Input = &smithylib.ShapeRef{Target: prefix + name + inputSuffix}
+			if ast.Shapes.Get(shape.Input.Target) != nil {
+				return nil, fmt.Errorf("The name for the input of %q is already defined: %s", name, shape.Input.Target)
+			}
 			inShape := smithylib.Shape{
 				Type:    "structure",
 				Members: smithylib.NewMembers(),
@@ -172,6 +175,9 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 		if hd.Expected != nil && len(hd.Expected.Outputs) > 0 {
 			//if we have any outputs, define this
 			shape.Output = &smithylib.ShapeRef{Target: prefix + name + outputSuffix}
+			if ast.Shapes.Get(shape.Output.Target) != nil {
+				return nil, fmt.Errorf("The name for the output of %q is already defined: %s", name, shape.Output.Target)
+			}
 			outShape := smithylib.Shape{
 				Type:    "structure",
 				Members: smithylib.NewMembers(),
@@ -233,6 +239,9 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 				}
 			}
 		}
+		if ast.Shapes.Get(prefix+name) != nil {
+			return nil, fmt.Errorf("The name of an operation is already defined: %s", name)
+		}
 		ast.Shapes.Put(prefix+name, &shape)
 		ops = append(ops, &smithylib.ShapeRef{
 			Target: prefix + name,
@@ -246,6 +255,9 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 		name := capitalize(od.Name)
 		if len(od.Inputs) > 0 {
 			shape.Input = &smithylib.ShapeRef{Target: prefix + name + inputSuffix}
+			if ast.Shapes.Get(shape.Input.Target) != nil {
+				return nil, fmt.Errorf("The name for the input of %q is already defined: %s", name, shape.Input.Target)
+			}
 			inShape := smithylib.Shape{
 				Type:    "structure",
 				Members: smithylib.NewMembers(),
@@ -264,6 +276,9 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 		}
 		if len(od.Outputs) > 0 {
 			shape.Output = &smithylib.ShapeRef{Target: prefix + name + outputSuffix}
+			if ast.Shapes.Get(shape.Output.Target) != nil {
+				return nil, fmt.Errorf("The name for the output of %q is already defined: %s", name, shape.Output.Target)
+			}
 			outShape := smithylib.Shape{
 				Type:    "structure",
 				Members: smithylib.NewMembers(),
@@ -284,6 +299,9 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 		}
 
 		ensureShapeTraits(&shape).Put("smithy.api#documentation", od.Comment)
+		if ast.Shapes.Get(prefix+name) != nil {
+			return nil, fmt.Errorf("The name of an operation is already defined: %s", name)
+		}
 		ast.Shapes.Put(prefix+name, &shape)
 		ops = append(ops, &smithylib.ShapeRef{
 			Target: prefix + name,
@@ -291,6 +309,13 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 	}
 
 	if len(ops) > 0 {
+		serviceName := sadl.Capitalize(model.Name)
+		if serviceName == "" {
+			serviceName = "Service" //Smithy requires a name
+		}
+		if ast.Shapes.Get(prefix+serviceName) != nil {
+			return nil, fmt.Errorf("The model's name is also the name of one of its definitions: %s", serviceName)
+		}
 		service := &smithylib.Shape{
 			Type:       "service",
 			Version:    model.Version,
@@ -302,7 +327,6 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 		if model.Comment != "" {
 			ensureShapeTraits(service).Put("smithy.api#documentation", model.Comment)
 		}
-		serviceName := sadl.Capitalize(model.Name)
 		ast.Shapes.Put(prefix+serviceName, service)
 	}
 	if len(model.Examples) > 0 {
-- 
2.43.0


From 2e9a1a556459a7c23011f512f05b136f41c4c1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:14 +0000
Subject: [PATCH 157/197] fix: references to types that Smithy has no
 equivalent for are reported

---
 smithy/export_smithy.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index fbe8ca6..658780b 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -332,9 +332,37 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 	if len(model.Examples) > 0 {
 		examplesFromSADL(ns, ast, model)
 	}
+	if err := checkReferences(ast); err != nil {
+		return nil, err
+	}
 	return ast, nil
 }
 
+// checkReferences reports members whose type has no shape, for want of a Smithy equivalent.
+func checkReferences(ast *smithylib.AST) error {
+	check := func(id string, member *smithylib.Member) error {
+		if member != nil && !strings.HasPrefix(member.Target, "smithy.api#") && ast.Shapes.Get(member.Target) == nil {
+			return fmt.Errorf("%s refers to a type that has no Smithy equivalent: %s", id, member.Target)
+		}
+		return nil
+	}
+	for _, id := range ast.Shapes.Keys() {
+		shape := ast.Shapes.Get(id)
+		members := []*smithylib.Member{shape.Member, shape.Key, shape.Value}
+		if shape.Members != nil {
+			for _, k := range shape.Members.Keys() {
+				members = append(members, shape.Members.Get(k))
+			}
+		}
+		for _, member := range members {
+			if err := check(id, member); err != nil {
+				return err
+			}
+		}
+	}
+	return nil
+}
+
 func sadlExamplesForAction(ns string, model *sadl.Model, hdef *sadl.HttpDef) []map[string]interface{} {
 	opName := sadl.Capitalize(hdef.Name)
 	reqType := opName + "Request"
-- 
2.43.0


From 5ba6013d2e9bcbe9cbd120420938263efa740197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:41 +0000
Subject: [PATCH 158/197] fix: the -n and -ns options override the name and
 namespace of every input format

---
 cmd/sadl/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/sadl/main.go b/cmd/sadl/main.go
index 3027ab6..e2161a6 100644
--- a/cmd/sadl/main.go
+++ b/cmd/sadl/main.go
@@ -133,6 +133,12 @@ Supported generators and options used from config if present
 		fmt.Println(err)
 		os.Exit(2)
 	}
+	if name != "" {
+		model.Name = name
+	}
+	if namespace != "" {
+		model.Namespace = namespace
+	}
 	var conf *sadl.Data
 	if configPath == "" {
 		configPath = os.Getenv("HOME") + "/.sadl-config.yaml"
-- 
2.43.0


From 1e3afd9bf011ef01ea6eb01f2efbb2f5babde416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:41 +0000
Subject: [PATCH 159/197] fix: sadl stops if its configuration file cannot be
 read

---
 cmd/sadl/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/sadl/main.go b/cmd/sadl/main.go
index e2161a6..6f24911 100644
--- a/cmd/sadl/main.go
+++ b/cmd/sadl/main.go
@@ -150,6 +150,7 @@ Supported generators and options used from config if present
 		conf, err = sadl.DataFromFile(configPath)
 		if err != nil {
 			fmt.Printf("Cannot read config file %q: %v\n", configPath, err)
+			os.Exit(3)
 		}
 	} else {
 		conf = sadl.NewData()
-- 
2.43.0


From f1c0614b2b24a65c2ae6d7901ac160b6acdf941b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:41 +0000
Subject: [PATCH 160/197] fix: the java and go configuration applies to all of
 their generators

---
 cmd/sadl/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/sadl/main.go b/cmd/sadl/main.go
index 6f24911..61234f5 100644
--- a/cmd/sadl/main.go
+++ b/cmd/sadl/main.go
@@ -156,8 +156,11 @@ Supported generators and options used from config if present
 		conf = sadl.NewData()
 	}
 	gc := gen
-	if gen == "java-server" { //todo: get rid of this hack
+	switch gen { //todo: get rid of this hack
+	case "java-model", "java-server", "java-client":
 		gc = "java"
+	case "go-model", "go-server", "go-client":
+		gc = "go"
 	}
 	genConf := conf.GetData(gc)
 	genConf.Put("force-overwrite", force)
-- 
2.43.0


From f4ec12835b41503d4ec9d361890a1f237ecd8c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:41 +0000
Subject: [PATCH 161/197] fix: a generator option's value may contain an equals
 sign

---
 cmd/sadl/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/sadl/main.go b/cmd/sadl/main.go
index 61234f5..04fc18e 100644
--- a/cmd/sadl/main.go
+++ b/cmd/sadl/main.go
@@ -168,7 +168,7 @@ Supported generators and options used from config if present
 		k := kv
 		var v interface{}
 		v = true
-		kvs := strings.Split(kv, "=")
+		kvs := strings.SplitN(kv, "=", 2)
 		if len(kvs) > 1 {
 			k = kvs[0]
 			v = kvs[1]
-- 
2.43.0


From 880d4cd483e5ab6f9765eb8be895ec8f8d1428a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:41 +0000
Subject: [PATCH 162/197] fix: the -t option restricts the input to files of
 that type

---
 cmd/sadl/import.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/sadl/import.go b/cmd/sadl/import.go
index 84cf65d..25b9346 100644
--- a/cmd/sadl/import.go
+++ b/cmd/sadl/import.go
@@ -91,6 +91,7 @@ func ValidImportFileType(path string) string {
 
 func ImportFiles(paths []string, conf *sadl.Data, extensions ...sadl.Extension) (*sadl.Model, error) {
 	chosenType := ""
+	wanted := conf.GetString("type")
 	flatPathList, err := expandPaths(paths)
 	if err != nil {
 		return nil, err
@@ -98,6 +99,9 @@ func ImportFiles(paths []string, conf *sadl.Data, extensions ...sadl.Extension)
 	var importPaths []string
 	for _, path := range flatPathList {
 		ftype := ValidImportFileType(path)
+		if wanted != "" && ftype != wanted {
+			continue
+		}
 		if ftype != "" {
 			if chosenType == "" {
 				chosenType = ftype
-- 
2.43.0


From 89c2d89ce86eec7e501bd1efa84a7cff98d0b3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:17 +0000
Subject: [PATCH 163/197] fix: a null document is no OpenAPI document, and not
 a crash

---
 openapi/import_openapi.go | 4 ++--
 openapi/model.go          | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 6a048bb..d30bad6 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -30,9 +30,9 @@ func Load(path string) (*Model, error) {
 	v3 := &Model{}
 	ext := filepath.Ext(path)
 	if ext == ".yaml" {
-		err = yaml.Unmarshal(data, &v3)
+		err = yaml.Unmarshal(data, v3)
 	} else {
-		err = json.Unmarshal(data, &v3)
+		err = json.Unmarshal(data, v3)
 	}
 	if err != nil {
 		return nil, err
diff --git a/openapi/model.go b/openapi/model.go
index dcafb69..09086c7 100644
--- a/openapi/model.go
+++ b/openapi/model.go
@@ -18,9 +18,9 @@ func Load(data []byte, format string) (*Model, error) {
 	var err error
 	v3 := &Model{}
 	if format == "yaml" {
-		err = yaml.Unmarshal(data, &v3)
+		err = yaml.Unmarshal(data, v3)
 	} else {
-		err = json.Unmarshal(data, &v3)
+		err = json.Unmarshal(data, v3)
 	}
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 49bd44a4ae28a320eeb97bc4b7b12a99d36a4be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:58 +0000
Subject: [PATCH 164/197] fix: Smithy boolean shapes become Bool types

---
 smithy/import_smithy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index 64d5318..53c6c9f 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -426,7 +426,7 @@ func (i *Importer) importBooleanShape(shapeName string, shape *smithylib.Shape)
 		Comment:     escapeComment(shape.Traits.GetString("smithy.api#documentation")),
 		Annotations: i.importTraitsAsAnnotations(nil, shape.Traits),
 	}
-	td.Type = "Boolean"
+	td.Type = "Bool"
 	i.schema.Types = append(i.schema.Types, td)
 }
 
-- 
2.43.0


From 3bdde95e3064454b09fa7139c66e8482b18dec4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:58 +0000
Subject: [PATCH 165/197] fix: the length trait of Smithy shapes limits lists
 and maps too, and may be 0

---
 smithy/import_smithy.go | 71 +++++++++++++++--------------------------
 1 file changed, 25 insertions(+), 46 deletions(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index 53c6c9f..df241af 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -270,16 +270,7 @@ func (i *Importer) importNumericShape(smithyType string, shapeName string, shape
 	default:
 		panic("whoops")
 	}
-	if l := shape.Traits.GetMap("smithy.api#range"); l != nil {
-		tmp := sadl.GetDecimal(l, "min")
-		if tmp != nil {
-			td.Min = tmp
-		}
-		tmp = sadl.GetDecimal(l, "max")
-		if tmp != nil {
-			td.Max = tmp
-		}
-	}
+	importRange(&td.TypeSpec, shape.Traits)
 	i.schema.Types = append(i.schema.Types, td)
 }
 
@@ -303,16 +294,7 @@ func (i *Importer) importStringShape(shapeName string, shape *smithylib.Shape) {
 	} else {
 		td.Type = "String"
 		td.Pattern = pat
-		if l := shape.Traits.GetMap("smithy.api#length"); l != nil {
-			tmp := sadl.GetInt64(l, "min")
-			if tmp != 0 {
-				td.MinSize = &tmp
-			}
-			tmp = sadl.GetInt64(l, "max")
-			if tmp != 0 {
-				td.MaxSize = &tmp
-			}
-		}
+		importLength(&td.TypeSpec, shape.Traits)
 		lst := shape.Traits.GetArray("smithy.api#enum")
 		if lst != nil {
 			var values []string
@@ -327,6 +309,26 @@ func (i *Importer) importStringShape(shapeName string, shape *smithylib.Shape) {
 	i.schema.Types = append(i.schema.Types, td)
 }
 
+// importLength takes the size limits from a length trait, either of which may be absent.
+func importLength(ts *sadl.TypeSpec, traits *data.Object) {
+	l := traits.GetMap("smithy.api#length")
+	if _, ok := l["min"]; ok {
+		min := sadl.GetInt64(l, "min")
+		ts.MinSize = &min
+	}
+	if _, ok := l["max"]; ok {
+		max := sadl.GetInt64(l, "max")
+		ts.MaxSize = &max
+	}
+}
+
+func importRange(ts *sadl.TypeSpec, traits *data.Object) {
+	if l := traits.GetMap("smithy.api#range"); l != nil {
+		ts.Min = sadl.GetDecimal(l, "min")
+		ts.Max = sadl.GetDecimal(l, "max")
+	}
+}
+
 func isSmithyRecommendedEnumName(s string) bool {
 	if s == "" {
 		return false
@@ -406,16 +408,7 @@ func (i *Importer) importBlobShape(shapeName string, shape *smithylib.Shape) {
 		Comment: escapeComment(shape.Traits.GetString("smithy.api#documentation")),
 	}
 	td.Type = "Bytes"
-	if l := shape.Traits.GetMap("smithy.api#length"); l != nil {
-		tmp := sadl.GetInt64(l, "min")
-		if tmp != 0 {
-			td.MinSize = &tmp
-		}
-		tmp = sadl.GetInt64(l, "max")
-		if tmp != 0 {
-			td.MaxSize = &tmp
-		}
-	}
+	importLength(&td.TypeSpec, shape.Traits)
 	i.schema.Types = append(i.schema.Types, td)
 }
 
@@ -613,14 +606,7 @@ func (i *Importer) importListShape(shapeName string, shape *smithylib.Shape, uni
 	}
 	td.Type = "Array"
 	td.Items = i.shapeRefToTypeRef(shape.Member.Target)
-	tmp := shape.Traits.GetInt64("smithy.api#min")
-	if tmp != 0 {
-		td.MinSize = &tmp
-	}
-	tmp = shape.Traits.GetInt64("smithy.api#max")
-	if tmp != 0 {
-		td.MaxSize = &tmp
-	}
+	importLength(&td.TypeSpec, shape.Traits)
 	if unique {
 		td.Annotations = WithAnnotation(td.Annotations, "x_unique", "true")
 	}
@@ -636,14 +622,7 @@ func (i *Importer) importMapShape(shapeName string, shape *smithylib.Shape) {
 	td.Type = "Map"
 	td.Keys = i.shapeRefToTypeRef(shape.Key.Target)
 	td.Items = i.shapeRefToTypeRef(shape.Value.Target)
-	tmp := shape.Traits.GetInt64("smithy.api#min")
-	if tmp != 0 {
-		td.MinSize = &tmp
-	}
-	tmp = shape.Traits.GetInt64("smithy.api#max")
-	if tmp != 0 {
-		td.MaxSize = &tmp
-	}
+	importLength(&td.TypeSpec, shape.Traits)
 	i.schema.Types = append(i.schema.Types, td)
 }
 
-- 
2.43.0


From 42f4dfaa8e407407d123d447bcc8e4faf25827ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:58 +0000
Subject: [PATCH 166/197] fix: the constraints of Smithy structure members
 become those of the fields

---
 smithy/import_smithy.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index df241af..1310bb3 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -589,8 +589,12 @@ func (i *Importer) importStructureShape(shapeName string, shape *smithylib.Shape
 			Required:    member.Traits.GetBool("smithy.api#required"),
 		}
 		fd.Type = i.shapeRefToTypeRef(member.Target)
-		if member.Traits.GetBool("smithy.api#required") {
-			fd.Required = true
+		if strings.HasPrefix(member.Target, "smithy.api#") {
+			importLength(&fd.TypeSpec, member.Traits)
+			importRange(&fd.TypeSpec, member.Traits)
+			if fd.Type == "String" {
+				fd.Pattern = member.Traits.GetString("smithy.api#pattern")
+			}
 		}
 		fields = append(fields, fd)
 	}
-- 
2.43.0


From daebec0b9ef3ecec5e4ddc80cd4b10b64460953c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:58 +0000
Subject: [PATCH 167/197] fix: the traits of Smithy strings, blobs, lists and
 maps become annotations like those of other shapes

---
 smithy/import_smithy.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index 1310bb3..821b9a5 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -285,8 +285,9 @@ func (i *Importer) importStringShape(shapeName string, shape *smithylib.Shape) {
 		return
 	}
 	td := &sadl.TypeDef{
-		Name:    sadlName,
-		Comment: escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Name:        sadlName,
+		Comment:     escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Annotations: i.importTraitsAsAnnotations(nil, shape.Traits),
 	}
 	pat := shape.Traits.GetString("smithy.api#pattern")
 	if pat == "([a-f0-9]{8}(-[a-f0-9]{4}){4}[a-f0-9]{8})" {
@@ -381,8 +382,9 @@ func (i *Importer) importEnum(shapeName string, shape *smithylib.Shape) bool {
 	}
 	sadlName := stripNamespace(shapeName)
 	td := &sadl.TypeDef{
-		Name:    sadlName,
-		Comment: escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Name:        sadlName,
+		Comment:     escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Annotations: i.importTraitsAsAnnotations(nil, shape.Traits),
 	}
 	td.Type = "Enum"
 	td.Elements = elements
@@ -404,8 +406,9 @@ func (i *Importer) importTimestampShape(shapeName string, shape *smithylib.Shape
 func (i *Importer) importBlobShape(shapeName string, shape *smithylib.Shape) {
 	sadlName := stripNamespace(shapeName)
 	td := &sadl.TypeDef{
-		Name:    sadlName,
-		Comment: escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Name:        sadlName,
+		Comment:     escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Annotations: i.importTraitsAsAnnotations(nil, shape.Traits),
 	}
 	td.Type = "Bytes"
 	importLength(&td.TypeSpec, shape.Traits)
@@ -433,12 +436,14 @@ func (i *Importer) importTraitsAsAnnotations(annos map[string]string, traits *da
 			annos = WithAnnotation(annos, "x_"+stripNamespace(k), fmt.Sprintf("%v", v))
 		case "smithy.api#httpPayload", "smithy.api#httpLabel", "smithy.api#httpQuery", "smithy.api#httpHeader":
 			/* ignore, implicit in SADL */
-		case "smithy.api#required", "smithy.api#documentation", "smithy.api#range", "smithy.api#length":
+		case "smithy.api#required", "smithy.api#documentation", "smithy.api#range", "smithy.api#length", "smithy.api#pattern", "smithy.api#enum":
 			/* ignore, implicit in SADL */
 		case "smithy.api#tags":
 			annos = WithAnnotation(annos, "x_"+stripNamespace(k), strings.Join(sadl.AsStringArray(v), ","))
 		case "smithy.api#readonly", "smithy.api#idempotent", "smithy.api#sensitive", "smithy.api#box":
 			//			annos = WithAnnotation(annos, "x_"+stripNamespace(k), "true")
+		case "smithy.api#uniqueItems":
+			annos = WithAnnotation(annos, "x_unique", "true")
 		case "smithy.api#http":
 			/* ignore, handled elsewhere */
 		case "smithy.api#timestampFormat", "smithy.api#enumValue":
@@ -605,8 +610,9 @@ func (i *Importer) importStructureShape(shapeName string, shape *smithylib.Shape
 func (i *Importer) importListShape(shapeName string, shape *smithylib.Shape, unique bool) {
 	sadlName := stripNamespace(shapeName)
 	td := &sadl.TypeDef{
-		Name:    sadlName,
-		Comment: escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Name:        sadlName,
+		Comment:     escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Annotations: i.importTraitsAsAnnotations(nil, shape.Traits),
 	}
 	td.Type = "Array"
 	td.Items = i.shapeRefToTypeRef(shape.Member.Target)
@@ -620,8 +626,9 @@ func (i *Importer) importListShape(shapeName string, shape *smithylib.Shape, uni
 func (i *Importer) importMapShape(shapeName string, shape *smithylib.Shape) {
 	sadlName := stripNamespace(shapeName)
 	td := &sadl.TypeDef{
-		Name:    sadlName,
-		Comment: escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Name:        sadlName,
+		Comment:     escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Annotations: i.importTraitsAsAnnotations(nil, shape.Traits),
 	}
 	td.Type = "Map"
 	td.Keys = i.shapeRefToTypeRef(shape.Key.Target)
-- 
2.43.0


From 3cf8843c3e87004ca241829481728c22c4ea71db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:58 +0000
Subject: [PATCH 168/197] fix: diagnostics of the Smithy conversions do not end
 up in the output

---
 smithy/export_smithy.go | 1 -
 smithy/import_smithy.go | 7 +++----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 658780b..3ee688f 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -118,7 +118,6 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 		name := capitalize(hd.Name)
 		if name == "" {
 			name = capitalize(strings.ToLower(hd.Method)) + "Something" //fix!
-			fmt.Println("FIX:", name)
 		}
 		shape := smithylib.Shape{
 			Type: "operation",
diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index 821b9a5..60e1378 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -277,7 +277,6 @@ func (i *Importer) importNumericShape(smithyType string, shapeName string, shape
 func (i *Importer) importStringShape(shapeName string, shape *smithylib.Shape) {
 	sadlName := stripNamespace(shapeName)
 	if sadlName == "UUID" {
-		fmt.Println("UUID shape name:", shapeName)
 		//UUID is already a builtin SADL type
 		return
 	}
@@ -478,12 +477,12 @@ func (i *Importer) importTraitsAsAnnotations(annos map[string]string, traits *da
 			if tshape != nil {
 				tm := tshape.Traits.GetMap("smithy.api#trait")
 				if tm != nil {
-					fmt.Println("tshape:", k, tm)
+					fmt.Fprintln(os.Stderr, "tshape:", k, tm)
 					//FIX ME
 					//I don't really have a place to put non-string annotations (note how I stuff string annos into "x_name").
 					//So I really need arbitrary annotations values to do this. Note also: need multiple ns support!
 				} else {
-					fmt.Println("Unhandled trait:", k, " =", sadl.Pretty(v))
+					fmt.Fprintln(os.Stderr, "Unhandled trait:", k, " =", sadl.Pretty(v))
 					panic("here: " + k)
 				}
 			} else {
@@ -491,7 +490,7 @@ func (i *Importer) importTraitsAsAnnotations(annos map[string]string, traits *da
 					if k == "smithy.api#internal" {
 						//ignore
 					} else {
-						fmt.Println("Unhandled trait:", k, " =", sadl.Pretty(v))
+						fmt.Fprintln(os.Stderr, "Unhandled trait:", k, " =", sadl.Pretty(v))
 						//panic("here: " + k)
 					}
 				} //else ignore
-- 
2.43.0


From 98e47d35a2913f025df7e97b9c9a34b5652a6015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:58 +0000
Subject: [PATCH 169/197] fix: Smithy inputs with only queries or headers are
 no body; query parameters keep their names

---
 smithy/import_smithy.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index 60e1378..48afd2f 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -799,7 +799,7 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 		qs := ""
 		payloadMember := ""
 		hasLabel := false
-		hasQuery := false
+		hasParam := false
 		if inStruct != nil {
 			for _, fname := range inStruct.Members.Keys() {
 				fval := inStruct.Members.Get(fname)
@@ -807,11 +807,11 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 					payloadMember = fname
 				} else if fval.Traits.GetBool("smithy.api#httpLabel") {
 					hasLabel = true
-				} else if fval.Traits.GetBool("smithy.api#httpQuery") {
-					hasQuery = true
+				} else if fval.Traits.GetString("smithy.api#httpQuery") != "" || fval.Traits.GetString("smithy.api#httpHeader") != "" {
+					hasParam = true
 				}
 			}
-			if hasLabel || hasQuery || payloadMember != "" {
+			if hasLabel || hasParam || payloadMember != "" {
 				//the input might *have* a body
 				for _, fname := range inStruct.Members.Keys() {
 					fval := inStruct.Members.Get(fname)
@@ -826,7 +826,7 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 						} else {
 							qs = qs + "&"
 						}
-						qs = qs + fname + "={" + fname + "}"
+						qs = qs + in.Query + "={" + fname + "}"
 					}
 					in.Header = fval.Traits.GetString("smithy.api#httpHeader")
 					in.Path = fval.Traits.GetBool("smithy.api#httpLabel")
-- 
2.43.0


From fc0641d18f263b8346c6faa4f62a36f23fb73c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:58 +0000
Subject: [PATCH 170/197] fix: a Smithy output with only headers has no body

---
 smithy/import_smithy.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index 48afd2f..aa6526d 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -854,17 +854,17 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 		//Smithy: the output struct is the result payload, unless a field is marked as payload, which allows other fields
 		//to be marked as header.
 		outBodyField := ""
-		hasLabel := false
+		hasHeader := false
 		for _, fname := range outStruct.Members.Keys() {
 			fval := outStruct.Members.Get(fname)
 			if fval.Traits.GetBool("smithy.api#httpPayload") {
 				outBodyField = fname
-			} else if fval.Traits.GetBool("smithy.api#httpLabel") {
-				hasLabel = true
+			} else if fval.Traits.GetString("smithy.api#httpHeader") != "" {
+				hasHeader = true
 			}
 		}
-		if outBodyField == "" && !hasLabel {
-			//the entire output structure is the payload, no headers possible
+		if outBodyField == "" && !hasHeader {
+			//the entire output structure is the payload
 			out := &sadl.HttpParamSpec{}
 			out.Name = "body"
 			out.Type = i.shapeRefToTypeRef(outType)
-- 
2.43.0


From d3142e6145a2e61376632b0812f529791c3291f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:58 +0000
Subject: [PATCH 171/197] fix: Smithy errors without an HTTP status have the
 default status

---
 smithy/import_smithy.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index aa6526d..b2eaedf 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -894,6 +894,14 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 			exc := &sadl.HttpExceptionSpec{}
 			exc.Type = eType
 			exc.Status = int32(eStruct.Traits.GetInt("smithy.api#httpError"))
+			if exc.Status == 0 {
+				switch eStruct.Traits.GetString("smithy.api#error") {
+				case "client":
+					exc.Status = 400
+				case "server":
+					exc.Status = 500
+				}
+			}
 			exc.Comment = escapeComment(eStruct.Traits.GetString("smithy.api#documentation"))
 			//preserve other traits as annotations?
 			hdef.Exceptions = append(hdef.Exceptions, exc)
-- 
2.43.0


From 28f6281a975a71a8f19e2e8554b5217f48b1dec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:58 +0000
Subject: [PATCH 172/197] fix: the examples of a Smithy operation refer to its
 request, response and errors

---
 smithy/import_smithy.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index b2eaedf..5f13b56 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -715,8 +715,8 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 		outShapeName = shape.Output.Target
 		outType = i.shapeRefToTypeRef(outShapeName)
 	}
-	reqType := sadl.Capitalize(shapeName) + inputSuffix
-	resType := sadl.Capitalize(shapeName) + outputSuffix
+	reqType := sadl.Capitalize(stripNamespace(shapeName)) + "Request"
+	resType := sadl.Capitalize(stripNamespace(shapeName)) + "Response"
 	if opexes := shape.Traits.GetArray("smithy.api#examples"); opexes != nil {
 		for _, opexr := range opexes {
 			if opex, ok := opexr.(map[string]interface{}); ok {
@@ -738,6 +738,14 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 					}
 					i.schema.Examples = append(i.schema.Examples, ex)
 				}
+				if failure := sadl.AsMap(opex["error"]); failure != nil {
+					ex := &sadl.ExampleDef{
+						Target:  i.shapeRefToTypeRef(sadl.GetString(failure, "shapeId")),
+						Name:    title,
+						Example: failure["content"],
+					}
+					i.schema.Examples = append(i.schema.Examples, ex)
+				}
 			}
 		}
 	}
-- 
2.43.0


From 7a31851d2ca70871a24e5824d43215b429664a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:58 +0000
Subject: [PATCH 173/197] fix: Smithy document shapes can be imported, and
 unsupported shapes are reported

---
 smithy/import_smithy.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index 5f13b56..852e1af 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -185,15 +185,17 @@ func ToSadl(ast *smithylib.AST, conf *sadl.Data) (*sadl.Model, error) {
 	for _, k := range ast.Shapes.Keys() {
 		v := ast.Shapes.Get(k)
 		if v.Type != "service" || k == serviceName {
-			i.importShape(k, v)
+			if err := i.importShape(k, v); err != nil {
+				return nil, err
+			}
 		}
 	}
 	return sadl.NewModel(schema)
 }
 
-func (i *Importer) importShape(shapeName string, shapeDef *smithylib.Shape) {
+func (i *Importer) importShape(shapeName string, shapeDef *smithylib.Shape) error {
 	if _, ok := i.ioParams[shapeName]; ok {
-		return
+		return nil
 	}
 	switch shapeDef.Type {
 	case "byte", "short", "integer", "long", "float", "double", "bigInteger", "bigDecimal":
@@ -224,10 +226,12 @@ func (i *Importer) importShape(shapeName string, shapeDef *smithylib.Shape) {
 		i.importOperationShape(shapeName, shapeDef)
 	case "resource":
 		i.importResourceShape(shapeName, shapeDef)
+	case "document":
+		i.importDocumentShape(shapeName, shapeDef)
 	default:
-		fmt.Println("fix me, unhandled shape type: " + shapeDef.Type)
-		panic("whoa")
+		return fmt.Errorf("Unsupported shape type for %s: %s", shapeName, shapeDef.Type)
 	}
+	return nil
 }
 
 func escapeComment(doc string) string {
@@ -425,6 +429,16 @@ func (i *Importer) importBooleanShape(shapeName string, shape *smithylib.Shape)
 	i.schema.Types = append(i.schema.Types, td)
 }
 
+func (i *Importer) importDocumentShape(shapeName string, shape *smithylib.Shape) {
+	td := &sadl.TypeDef{
+		Name:        stripNamespace(shapeName),
+		Comment:     escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Annotations: i.importTraitsAsAnnotations(nil, shape.Traits),
+	}
+	td.Type = "Struct" //as for references to the Document type
+	i.schema.Types = append(i.schema.Types, td)
+}
+
 func (i *Importer) importTraitsAsAnnotations(annos map[string]string, traits *data.Object) map[string]string {
 	for _, k := range traits.Keys() {
 		v := traits.Get(k)
-- 
2.43.0


From 12d4b14cf9625483246115606f31dd4c08894e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:58 +0000
Subject: [PATCH 174/197] fix: Smithy inputs and outputs that are used as types
 are imported as types

---
 smithy/import_smithy.go | 62 ++++++++++++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 16 deletions(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index 852e1af..14f12ec 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -176,6 +176,9 @@ func ToSadl(ast *smithylib.AST, conf *sadl.Data) (*sadl.Model, error) {
 			}
 		}
 	}
+	for _, shapeName := range i.usedAsTypes() {
+		delete(i.ioParams, shapeName)
+	}
 	if schema.Name == "" {
 		schema.Name = stripNamespace(serviceName)
 	}
@@ -193,6 +196,49 @@ func ToSadl(ast *smithylib.AST, conf *sadl.Data) (*sadl.Model, error) {
 	return sadl.NewModel(schema)
 }
 
+// usedAsTypes lists the shapes that something refers to as a type: by a member, as an error, or as
+// the body of an HTTP action, which an input or output without HTTP bindings is.
+func (i *Importer) usedAsTypes() []string {
+	var used []string
+	for _, shapeName := range i.ast.Shapes.Keys() {
+		shape := i.ast.Shapes.Get(shapeName)
+		for _, member := range []*smithylib.Member{shape.Member, shape.Key, shape.Value} {
+			if member != nil {
+				used = append(used, member.Target)
+			}
+		}
+		if shape.Members != nil {
+			for _, k := range shape.Members.Keys() {
+				used = append(used, shape.Members.Get(k).Target)
+			}
+		}
+		for _, ref := range shape.Errors {
+			used = append(used, ref.Target)
+		}
+		if shape.Type == "operation" && shape.Traits.Has("smithy.api#http") {
+			for _, ref := range []*smithylib.ShapeRef{shape.Input, shape.Output} {
+				if ref != nil && !hasHttpBindings(i.ast.GetShape(ref.Target)) {
+					used = append(used, ref.Target)
+				}
+			}
+		}
+	}
+	return used
+}
+
+func hasHttpBindings(shape *smithylib.Shape) bool {
+	if shape != nil && shape.Members != nil {
+		for _, k := range shape.Members.Keys() {
+			for _, trait := range []string{"httpPayload", "httpLabel", "httpQuery", "httpHeader"} {
+				if shape.Members.Get(k).Traits.Has("smithy.api#" + trait) {
+					return true
+				}
+			}
+		}
+	}
+	return false
+}
+
 func (i *Importer) importShape(shapeName string, shapeDef *smithylib.Shape) error {
 	if _, ok := i.ioParams[shapeName]; ok {
 		return nil
@@ -574,22 +620,6 @@ func (i *Importer) importUnionShape(shapeName string, shape *smithylib.Shape) {
 }
 
 func (i *Importer) importStructureShape(shapeName string, shape *smithylib.Shape) {
-	//unless...no httpTraits, in which case is should equivalent to a payload description
-	if _, ok := i.ioParams[shapeName]; ok {
-		shape := i.ast.GetShape(shapeName)
-		for _, k := range shape.Members.Keys() {
-			fval := shape.Members.Get(k)
-			if fval.Traits.GetBool("smithy.api#httpLabel") {
-				return
-			}
-			if fval.Traits.GetBool("smithy.api#httpPayload") {
-				return
-			}
-			if fval.Traits.GetString("smithy.api#httpQuery") != "" {
-				return
-			}
-		}
-	}
 	sadlName := stripNamespace(shapeName)
 	td := &sadl.TypeDef{
 		Name:        sadlName,
-- 
2.43.0


From 72ffae0013ffc43b3bdc2e1e3ab2b5fde4a0a4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:23 +0000
Subject: [PATCH 175/197] fix: references to Smithy's Unit and primitive types
 become references to base types

---
 smithy/import_smithy.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index 14f12ec..8138269 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -696,21 +696,21 @@ func (i *Importer) shapeRefToTypeRef(shapeRef string) string {
 	switch typeRef {
 	case "smithy.api#Blob", "Blob":
 		return "Bytes"
-	case "smithy.api#Boolean", "Boolean":
+	case "smithy.api#Boolean", "smithy.api#PrimitiveBoolean", "Boolean":
 		return "Bool"
 	case "smithy.api#String", "String":
 		return "String"
-	case "smithy.api#Byte", "Byte":
+	case "smithy.api#Byte", "smithy.api#PrimitiveByte", "Byte":
 		return "Int8"
-	case "smithy.api#Short", "Short":
+	case "smithy.api#Short", "smithy.api#PrimitiveShort", "Short":
 		return "Int16"
-	case "smithy.api#Integer", "Integer":
+	case "smithy.api#Integer", "smithy.api#PrimitiveInteger", "Integer":
 		return "Int32"
-	case "smithy.api#Long", "Long":
+	case "smithy.api#Long", "smithy.api#PrimitiveLong", "Long":
 		return "Int64"
-	case "smithy.api#Float", "Float":
+	case "smithy.api#Float", "smithy.api#PrimitiveFloat", "Float":
 		return "Float32"
-	case "smithy.api#Double", "Double":
+	case "smithy.api#Double", "smithy.api#PrimitiveDouble", "Double":
 		return "Float64"
 	case "smithy.api#BigInteger", "BigInteger":
 		return "Decimal" //lossy!
@@ -720,6 +720,8 @@ func (i *Importer) shapeRefToTypeRef(shapeRef string) string {
 		return "Timestamp"
 	case "smithy.api#Document", "Document":
 		return "Struct" //todo: introduce a separate type for open structs.
+	case "smithy.api#Unit":
+		return "Struct" //a structure without members
 	default:
 		if true {
 			typeRef = stripNamespace(typeRef)
-- 
2.43.0


From c727284778eb1f4689cb122c3e4dc0dd89c338b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:23 +0000
Subject: [PATCH 176/197] fix: a Smithy model with missing shapes is refused,
 and does not crash the import

---
 smithy/export_smithy.go | 30 ++++++++++++++++++++++++------
 smithy/import_smithy.go |  7 +++++--
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 3ee688f..2b38100 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -337,24 +337,42 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 	return ast, nil
 }
 
-// checkReferences reports members whose type has no shape, for want of a Smithy equivalent.
+// checkReferences reports references to shapes that do not exist, and members that are missing.
 func checkReferences(ast *smithylib.AST) error {
-	check := func(id string, member *smithylib.Member) error {
-		if member != nil && !strings.HasPrefix(member.Target, "smithy.api#") && ast.Shapes.Get(member.Target) == nil {
-			return fmt.Errorf("%s refers to a type that has no Smithy equivalent: %s", id, member.Target)
+	check := func(id string, target string) error {
+		if !strings.HasPrefix(target, "smithy.api#") && ast.Shapes.Get(target) == nil {
+			return fmt.Errorf("%s refers to a type that is not defined: %q", id, target)
 		}
 		return nil
 	}
 	for _, id := range ast.Shapes.Keys() {
 		shape := ast.Shapes.Get(id)
-		members := []*smithylib.Member{shape.Member, shape.Key, shape.Value}
+		var targets []string
+		var members []*smithylib.Member
+		switch shape.Type {
+		case "list", "set":
+			members = append(members, shape.Member)
+		case "map":
+			members = append(members, shape.Key, shape.Value)
+		}
 		if shape.Members != nil {
 			for _, k := range shape.Members.Keys() {
 				members = append(members, shape.Members.Get(k))
 			}
 		}
 		for _, member := range members {
-			if err := check(id, member); err != nil {
+			if member == nil {
+				return fmt.Errorf("%s lacks a member", id)
+			}
+			targets = append(targets, member.Target)
+		}
+		for _, ref := range append([]*smithylib.ShapeRef{shape.Input, shape.Output}, shape.Errors...) {
+			if ref != nil {
+				targets = append(targets, ref.Target)
+			}
+		}
+		for _, target := range targets {
+			if err := check(id, target); err != nil {
 				return err
 			}
 		}
diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index 8138269..46cf66e 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -103,6 +103,9 @@ func ToSadl(ast *smithylib.AST, conf *sadl.Data) (*sadl.Model, error) {
 		ast:      ast,
 		ioParams: make(map[string]*smithylib.Shape, 0),
 	}
+	if err := checkReferences(ast); err != nil {
+		return nil, err
+	}
 	name := conf.GetString("name")
 	if name != "" {
 		i.name = name
@@ -803,7 +806,7 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 			Comment:     escapeComment(shape.Traits.GetString("smithy.api#documentation")),
 			Annotations: i.importTraitsAsAnnotations(nil, shape.Traits),
 		}
-		if shape.Input != nil {
+		if shape.Input != nil && inShapeName != "smithy.api#Unit" {
 			inStruct := i.ast.GetShape(inShapeName)
 			var inputs []*sadl.OperationInput
 			for _, fname := range inStruct.Members.Keys() {
@@ -816,7 +819,7 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 			}
 			odef.Inputs = inputs
 		}
-		if shape.Output != nil {
+		if shape.Output != nil && outShapeName != "smithy.api#Unit" {
 			outStruct := i.ast.GetShape(outShapeName)
 			var outputs []*sadl.OperationOutput
 			for _, fname := range outStruct.Members.Keys() {
-- 
2.43.0


From 80e8242e517a46cd5a58e378d6ae54f47f38a90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:37 +0000
Subject: [PATCH 177/197] fix: Smithy inputs and outputs without members are no
 body

---
 smithy/import_smithy.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index 46cf66e..14b0879 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -220,7 +220,7 @@ func (i *Importer) usedAsTypes() []string {
 		}
 		if shape.Type == "operation" && shape.Traits.Has("smithy.api#http") {
 			for _, ref := range []*smithylib.ShapeRef{shape.Input, shape.Output} {
-				if ref != nil && !hasHttpBindings(i.ast.GetShape(ref.Target)) {
+				if ref != nil && isBody(i.ast.GetShape(ref.Target)) {
 					used = append(used, ref.Target)
 				}
 			}
@@ -229,17 +229,19 @@ func (i *Importer) usedAsTypes() []string {
 	return used
 }
 
-func hasHttpBindings(shape *smithylib.Shape) bool {
-	if shape != nil && shape.Members != nil {
-		for _, k := range shape.Members.Keys() {
-			for _, trait := range []string{"httpPayload", "httpLabel", "httpQuery", "httpHeader"} {
-				if shape.Members.Get(k).Traits.Has("smithy.api#" + trait) {
-					return true
-				}
+// isBody tells if an input or output is a body as a whole: it has members, and none has an HTTP binding.
+func isBody(shape *smithylib.Shape) bool {
+	if shape == nil || shape.Members == nil {
+		return false
+	}
+	for _, k := range shape.Members.Keys() {
+		for _, trait := range []string{"httpPayload", "httpLabel", "httpQuery", "httpHeader"} {
+			if shape.Members.Get(k).Traits.Has("smithy.api#" + trait) {
+				return false
 			}
 		}
 	}
-	return false
+	return len(shape.Members.Keys()) > 0
 }
 
 func (i *Importer) importShape(shapeName string, shapeDef *smithylib.Shape) error {
@@ -889,7 +891,7 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 					in.Path = fval.Traits.GetBool("smithy.api#httpLabel")
 					hdef.Inputs = append(hdef.Inputs, in)
 				}
-			} else {
+			} else if len(inStruct.Members.Keys()) > 0 {
 				//the input *is* a body. Generate a name for it.
 				in := &sadl.HttpParamSpec{}
 				in.Name = "body"
@@ -920,7 +922,9 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 				hasHeader = true
 			}
 		}
-		if outBodyField == "" && !hasHeader {
+		if len(outStruct.Members.Keys()) == 0 {
+			//no content
+		} else if outBodyField == "" && !hasHeader {
 			//the entire output structure is the payload
 			out := &sadl.HttpParamSpec{}
 			out.Name = "body"
-- 
2.43.0


From 474954c25cd73d1af9d2ad776e75bd851203356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:58 +0000
Subject: [PATCH 178/197] fix: the range trait of a Smithy shape is imported

---
 smithy/import_smithy.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index 14b0879..9f15522 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -379,11 +379,23 @@ func importLength(ts *sadl.TypeSpec, traits *data.Object) {
 
 func importRange(ts *sadl.TypeSpec, traits *data.Object) {
 	if l := traits.GetMap("smithy.api#range"); l != nil {
-		ts.Min = sadl.GetDecimal(l, "min")
-		ts.Max = sadl.GetDecimal(l, "max")
+		ts.Min = rangeBound(l["min"])
+		ts.Max = rangeBound(l["max"])
 	}
 }
 
+// rangeBound returns the bound of a range trait, a number of whatever type the AST holds it in.
+func rangeBound(n interface{}) *sadl.Decimal {
+	if n == nil {
+		return nil
+	}
+	bound, err := sadl.ParseDecimal(fmt.Sprint(n))
+	if err != nil {
+		return nil
+	}
+	return bound
+}
+
 func isSmithyRecommendedEnumName(s string) bool {
 	if s == "" {
 		return false
-- 
2.43.0


From a665b20868fadde80de9afbc98fab072939422b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:30 +0000
Subject: [PATCH 179/197] fix: Smithy input and output members without a
 binding make up one body

---
 smithy/import_smithy.go | 100 ++++++++++++++++++++++++++++++++++------
 1 file changed, 85 insertions(+), 15 deletions(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index 9f15522..de559df 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -646,25 +646,75 @@ func (i *Importer) importStructureShape(shapeName string, shape *smithylib.Shape
 	td.Type = "Struct"
 	var fields []*sadl.StructFieldDef
 	for _, memberName := range shape.Members.Keys() {
-		member := shape.Members.Get(memberName)
-		fd := &sadl.StructFieldDef{
-			Name:        memberName,
-			Comment:     escapeComment(member.Traits.GetString("smithy.api#documentation")),
-			Annotations: i.importTraitsAsAnnotations(nil, member.Traits),
-			Required:    member.Traits.GetBool("smithy.api#required"),
+		fields = append(fields, i.importStructureMember(memberName, shape.Members.Get(memberName)))
+	}
+	td.Fields = fields
+	i.schema.Types = append(i.schema.Types, td)
+}
+
+func (i *Importer) importStructureMember(memberName string, member *smithylib.Member) *sadl.StructFieldDef {
+	fd := &sadl.StructFieldDef{
+		Name:        memberName,
+		Comment:     escapeComment(member.Traits.GetString("smithy.api#documentation")),
+		Annotations: i.importTraitsAsAnnotations(nil, member.Traits),
+		Required:    member.Traits.GetBool("smithy.api#required"),
+	}
+	fd.Type = i.shapeRefToTypeRef(member.Target)
+	if strings.HasPrefix(member.Target, "smithy.api#") {
+		importLength(&fd.TypeSpec, member.Traits)
+		importRange(&fd.TypeSpec, member.Traits)
+		if fd.Type == "String" {
+			fd.Pattern = member.Traits.GetString("smithy.api#pattern")
 		}
-		fd.Type = i.shapeRefToTypeRef(member.Target)
-		if strings.HasPrefix(member.Target, "smithy.api#") {
-			importLength(&fd.TypeSpec, member.Traits)
-			importRange(&fd.TypeSpec, member.Traits)
-			if fd.Type == "String" {
-				fd.Pattern = member.Traits.GetString("smithy.api#pattern")
-			}
+	}
+	return fd
+}
+
+// unboundMembers returns the members of an input or output that are in its body, next to others that have an HTTP
+// binding: the body is a structure of them, unless some member is the payload.
+func unboundMembers(shape *smithylib.Shape) []string {
+	var unbound []string
+	for _, k := range shape.Members.Keys() {
+		traits := shape.Members.Get(k).Traits
+		if traits.GetBool("smithy.api#httpPayload") {
+			return nil
+		}
+		if !traits.GetBool("smithy.api#httpLabel") && traits.GetString("smithy.api#httpQuery") == "" && traits.GetString("smithy.api#httpHeader") == "" {
+			unbound = append(unbound, k)
 		}
-		fields = append(fields, fd)
 	}
-	td.Fields = fields
+	return unbound
+}
+
+// unusedName returns the name, made different from those of the members of the shape.
+func unusedName(name string, shape *smithylib.Shape) string {
+	for containsString(shape.Members.Keys(), name) {
+		name = name + "_"
+	}
+	return name
+}
+
+func containsString(list []string, s string) bool {
+	for _, x := range list {
+		if x == s {
+			return true
+		}
+	}
+	return false
+}
+
+// importBodyMembers defines a struct of the given members of an input or output, and returns its name.
+func (i *Importer) importBodyMembers(baseName string, shape *smithylib.Shape, members []string) string {
+	td := &sadl.TypeDef{Name: baseName}
+	for i.ast.GetShape(i.ensureLocalNamespace(td.Name)) != nil {
+		td.Name = td.Name + "_"
+	}
+	td.Type = "Struct"
+	for _, k := range members {
+		td.Fields = append(td.Fields, i.importStructureMember(k, shape.Members.Get(k)))
+	}
 	i.schema.Types = append(i.schema.Types, td)
+	return td.Name
 }
 
 func (i *Importer) importListShape(shapeName string, shape *smithylib.Shape, unique bool) {
@@ -884,8 +934,12 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 			}
 			if hasLabel || hasParam || payloadMember != "" {
 				//the input might *have* a body
+				unbound := unboundMembers(inStruct)
 				for _, fname := range inStruct.Members.Keys() {
 					fval := inStruct.Members.Get(fname)
+					if containsString(unbound, fname) {
+						continue
+					}
 					in := &sadl.HttpParamSpec{}
 					in.Name = fname
 					in.Type = i.shapeRefToTypeRef(fval.Target)
@@ -903,6 +957,12 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 					in.Path = fval.Traits.GetBool("smithy.api#httpLabel")
 					hdef.Inputs = append(hdef.Inputs, in)
 				}
+				if len(unbound) > 0 {
+					in := &sadl.HttpParamSpec{}
+					in.Name = unusedName("body", inStruct)
+					in.Type = i.importBodyMembers(sadl.Capitalize(sadlName)+"RequestBody", inStruct, unbound)
+					hdef.Inputs = append(hdef.Inputs, in)
+				}
 			} else if len(inStruct.Members.Keys()) > 0 {
 				//the input *is* a body. Generate a name for it.
 				in := &sadl.HttpParamSpec{}
@@ -943,8 +1003,12 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 			out.Type = i.shapeRefToTypeRef(outType)
 			expected.Outputs = append(expected.Outputs, out)
 		} else {
+			unbound := unboundMembers(outStruct)
 			for _, fname := range outStruct.Members.Keys() {
 				fval := outStruct.Members.Get(fname)
+				if containsString(unbound, fname) {
+					continue
+				}
 				out := &sadl.HttpParamSpec{}
 				out.Name = fname
 				out.Type = i.shapeRefToTypeRef(fval.Target)
@@ -954,6 +1018,12 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 				out.Path = fval.Traits.GetBool("smithy.api#httpLabel")
 				expected.Outputs = append(expected.Outputs, out)
 			}
+			if len(unbound) > 0 {
+				out := &sadl.HttpParamSpec{}
+				out.Name = unusedName("body", outStruct)
+				out.Type = i.importBodyMembers(sadl.Capitalize(sadlName)+"ResponseBody", outStruct, unbound)
+				expected.Outputs = append(expected.Outputs, out)
+			}
 		}
 	}
 	if shape.Errors != nil {
-- 
2.43.0


From 12c25b456ba9fd9281c90c655bbabb3e8ff71702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:30 +0000
Subject: [PATCH 180/197] fix: Java services pass on exceptions with a status
 that allows no entity

---
 java/java_client.go | 12 ++++++++++--
 java/java_server.go | 13 +++++++++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index d799372..80f5d26 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -189,10 +189,18 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 			for _, exc := range hact.Exceptions {
 				tn, _, _ := gen.TypeName(nil, exc.Type, false)
 				writer.WriteString("        case " + fmt.Sprint(exc.Status) + ":\n")
+				entity := readEntity(tn)
+				if td := gen.Model.FindType(exc.Type); !hasEntity(exc.Status) && td != nil && td.Type == "Struct" {
+					if gen.UseImmutable {
+						entity = tn + ".builder().build()"
+					} else {
+						entity = "new " + tn + "()"
+					}
+				}
 				if gen.ServiceException {
-					writer.WriteString("            throw new ServiceException().entity(" + readEntity(tn) + ");\n")
+					writer.WriteString("            throw new ServiceException().entity(" + entity + ");\n")
 				} else {
-					writer.WriteString("            throw " + readEntity(tn) + ";\n")
+					writer.WriteString("            throw " + entity + ";\n")
 				}
 			}
 			writer.WriteString("        default:\n")
diff --git a/java/java_server.go b/java/java_server.go
index bc3bffb..c6592cc 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -290,7 +290,7 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 							writer.WriteString("            } else if (_entity instanceof " + tn + ") {\n")
 						}
 						writer.WriteString(fmt.Sprintf("                _status = %d;\n", resp.Status))
-						if resp.Status == 204 || resp.Status == 304 {
+						if !hasEntity(resp.Status) {
 							writer.WriteString("                _entity = null;\n")
 							anyNull = true
 						}
@@ -315,7 +315,11 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 					}
 					caught[tn] = true
 					writer.WriteString("        } catch (" + tn + " _e) {\n")
-					writer.WriteString("                throw new WebApplicationException(Response.status(" + status + ").entity(_e).build());\n")
+					entity := ".entity(_e)"
+					if !hasEntity(resp.Status) {
+						entity = ""
+					}
+					writer.WriteString("                throw new WebApplicationException(Response.status(" + status + ")" + entity + ".build());\n")
 				}
 			}
 			writer.WriteString("        } catch (Throwable _th) {\n")
@@ -449,6 +453,11 @@ func (gen *Generator) CreateResponsePojo(hact *sadl.HttpDef) {
 	gen.CreatePojo(ts, className, "", nil)
 }
 
+// hasEntity tells if a response with the given status can have an entity.
+func hasEntity(status int32) bool {
+	return status != 204 && status != 304
+}
+
 func (gen *Generator) ActionInfo(hact *sadl.HttpDef) (string, string) {
 	switch hact.Method {
 	case "POST", "PUT":
-- 
2.43.0


From 0878475d9e678df40532e05ea5a5377063168148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:15 +0000
Subject: [PATCH 181/197] fix: Java classes that use Lombok have the classes of
 their inline types

---
 java/export_java.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index 2d7ba4b..1cab2d2 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -382,9 +382,9 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
     }
 `)
 		}
-		for _, n := range nested {
-			gen.CreateNestedPojo(n, indent+"    ")
-		}
+	}
+	for _, n := range nested {
+		gen.CreateNestedPojo(n, indent+"    ")
 	}
 	gen.Emit(indent + "}\n")
 }
-- 
2.43.0


From 070b1492880035d8fddf726386c05a6bb3741e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:14 +0000
Subject: [PATCH 182/197] fix: Smithy export: useInputOutput does not stay on
 for later exports

---
 smithy/export_smithy.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 2b38100..6cf3a35 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -13,6 +13,8 @@ var inputSuffix = "Request"
 var outputSuffix = "Response"
 
 func Export(model *sadl.Model, out string, conf *sadl.Data, exportAst bool) error {
+	inputSuffix = "Request"
+	outputSuffix = "Response"
 	if conf.GetBool("useInputOutput") {
 		inputSuffix = "Input"
 		outputSuffix = "Output"
-- 
2.43.0


From 68b04188b0f2f045c524693d82fdacf4e20cd36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:37 +0000
Subject: [PATCH 183/197] fix: Smithy import does not panic at a trait whose
 definition does not say so

---
 smithy/import_smithy.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index de559df..3d84d3b 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -559,8 +559,7 @@ func (i *Importer) importTraitsAsAnnotations(annos map[string]string, traits *da
 					//I don't really have a place to put non-string annotations (note how I stuff string annos into "x_name").
 					//So I really need arbitrary annotations values to do this. Note also: need multiple ns support!
 				} else {
-					fmt.Fprintln(os.Stderr, "Unhandled trait:", k, " =", sadl.Pretty(v))
-					panic("here: " + k)
+					fmt.Fprintln(os.Stderr, "Not defined as a trait:", k, " =", sadl.Pretty(v))
 				}
 			} else {
 				if strings.HasPrefix(k, "smithy.api#") {
-- 
2.43.0


From 7c416ef3ef0aefbeec74b35615a1b8ed4203141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:37 +0000
Subject: [PATCH 184/197] fix: Smithy import: the name in the metadata is the
 model's

---
 smithy/import_smithy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index 3d84d3b..fadb0ef 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -139,7 +139,7 @@ func ToSadl(ast *smithylib.AST, conf *sadl.Data) (*sadl.Model, error) {
 	}
 	//	annos["x_smithy_version"] = model.ast.Version
 	schema := &sadl.Schema{
-		Name:        name,
+		Name:        i.name,
 		Namespace:   namespace,
 		Sadl:        sadl.Version,
 		Annotations: annos,
-- 
2.43.0


From cf29b0a64b74dc0e54e14bd71171c3da18bdfa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:59 +0000
Subject: [PATCH 185/197] fix: Smithy export: the name option names the service
 of a model without a name

---
 smithy/export_smithy.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 6cf3a35..600cf50 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -27,6 +27,11 @@ func Export(model *sadl.Model, out string, conf *sadl.Data, exportAst bool) erro
 	if ns == "" {
 		ns = "example"
 	}
+	if name := conf.GetString("name"); name != "" && model.Name == "" {
+		named := *model
+		named.Name = name
+		model = &named
+	}
 	ast, err := FromSADL(model, ns)
 	if err != nil {
 		return fmt.Errorf("sadl2smithy: Cannot convert SADL to Smithy: %v\n", err)
-- 
2.43.0


From 6e7711c64d80c4ad997f3d8332c6c86067340b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:05 +0000
Subject: [PATCH 186/197] fix: swagger-ui: requests for the document do not
 share its reader

---
 cmd/sadl/serve.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/sadl/serve.go b/cmd/sadl/serve.go
index 50a44a0..f3fa29d 100644
--- a/cmd/sadl/serve.go
+++ b/cmd/sadl/serve.go
@@ -25,7 +25,7 @@ func serveSwaggerUi(model *sadl.Model, conf *sadl.Data) error {
 		return err
 	}
 	docPretty := sadl.Pretty(doc)
-	docContent := bytes.NewReader([]byte(docPretty))
+	docContent := []byte(docPretty)
 	modTime := time.Now()
 	apiName := model.Name + ".json"
 	fmt.Println("show swagger-ui for:", apiName, "at http://localhost:8080/")
@@ -62,7 +62,7 @@ func serveSwaggerUi(model *sadl.Model, conf *sadl.Data) error {
 		if path == "/" {
 			path = "/index.html"
 		} else if strings.HasSuffix(path, ".json") {
-			http.ServeContent(w, r, path, modTime, docContent)
+			http.ServeContent(w, r, path, modTime, bytes.NewReader(docContent))
 			return
 		}
 		if f, ok := files[path]; ok {
-- 
2.43.0


From 11bec579828815cfe395a962645e0c1981d25aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:56 +0000
Subject: [PATCH 187/197] fix: Smithy export keeps the comments of fields,
 elements and parameters

---
 smithy/export_smithy.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 600cf50..8e2012e 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -173,6 +173,7 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 				if in.Required || in.Path {
 					ensureMemberTraits(mem).Put("smithy.api#required", true)
 				}
+				documentMember(mem, in.Comment)
 				inShape.Members.Put(in.Name, mem)
 			}
 			ast.Shapes.Put(shape.Input.Target, &inShape)
@@ -201,6 +202,7 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 				if out.Required {
 					ensureMemberTraits(mem).Put("smithy.api#required", true)
 				}
+				documentMember(mem, out.Comment)
 				outShape.Members.Put(out.Name, mem)
 			}
 			ast.Shapes.Put(shape.Output.Target, &outShape)
@@ -276,6 +278,7 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 				if in.Required {
 					ensureMemberTraits(mem).Put("smithy.api#required", true)
 				}
+				documentMember(mem, in.Comment)
 				inShape.Members.Put(in.Name, mem)
 			}
 			ast.Shapes.Put(shape.Input.Target, &inShape)
@@ -294,6 +297,7 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 				mem := &smithylib.Member{
 					Target: typeReferenceByName(ns, out.Type),
 				}
+				documentMember(mem, out.Comment)
 				outShape.Members.Put(out.Name, mem)
 			}
 			ast.Shapes.Put(shape.Output.Target, &outShape)
@@ -672,12 +676,19 @@ func shapeFromStruct(model *sadl.Model, ns string, shapes *smithylib.Shapes, tna
 		if !inline {
 			constrainMember(member, &fd.TypeSpec)
 		}
+		documentMember(member, fd.Comment)
 		members.Put(fd.Name, member)
 	}
 	shape.Members = members
 	return shape, nil
 }
 
+func documentMember(member *smithylib.Member, comment string) {
+	if comment != "" {
+		ensureMemberTraits(member).Put("smithy.api#documentation", comment)
+	}
+}
+
 // constrainMember adds the constraints that a field adds to its type.
 func constrainMember(member *smithylib.Member, ts *sadl.TypeSpec) {
 	if l := lengthTrait(ts.MinSize, ts.MaxSize); l != nil {
@@ -786,6 +797,7 @@ func shapeFromEnum(ts *sadl.TypeSpec) smithylib.Shape {
 				ensureMemberTraits(mem).Put("smithy.api#enumValue", val)
 			}
 		}
+		documentMember(mem, el.Comment)
 		mems.Put(el.Symbol, mem)
 	}
 	shape.Members = mems
-- 
2.43.0


From 4c9c043bc829be0c9f3a5efb974c0f87dd70c5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:22 +0000
Subject: [PATCH 188/197] fix: Smithy export gives the traits of a type in the
 same order every time

---
 smithy/export_smithy.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 8e2012e..0f6ccab 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -583,7 +583,11 @@ func defineShapeFromTypeSpec(model *sadl.Model, ns string, shapes *smithylib.Sha
 		ensureShapeTraits(&shape).Put("smithy.api#documentation", comment)
 	}
 	if annos != nil {
-		for k, v := range annos {
+		for _, k := range []string{"x_tags", "x_sensitive", "x_deprecated"} {
+			v, ok := annos[k]
+			if !ok {
+				continue
+			}
 			switch k {
 			case "x_tags":
 				ensureShapeTraits(&shape).Put("smithy.api#tags", strings.Split(v, ","))
-- 
2.43.0


From 956f5f28afca83967daf14579e96019713ed236a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:05 +0000
Subject: [PATCH 189/197] fix: OpenAPI export keeps the comments of fields

---
 openapi/export_openapi.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index b16b3b3..dbd6623 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -466,7 +466,7 @@ func (gen *Generator) exportStructTypeDef(td *sadl.TypeDef) (*Schema, error) {
 		if err != nil {
 			return nil, err
 		}
-		properties[fd.Name] = tr
+		properties[fd.Name] = describedProperty(tr, fd.Comment)
 
 	}
 	schema.Required = required
@@ -474,6 +474,14 @@ func (gen *Generator) exportStructTypeDef(td *sadl.TypeDef) (*Schema, error) {
 	return schema, nil
 }
 
+// describedProperty adds the field's comment to its schema, unless that is a reference, next to which it would be ignored.
+func describedProperty(schema *Schema, comment string) *Schema {
+	if comment != "" && schema.Ref == "" {
+		schema.Description = comment
+	}
+	return schema
+}
+
 func (gen *Generator) exportUnionTypeDef(td *sadl.TypeDef) (*Schema, error) {
 	schema := &Schema{
 		Description: td.Comment,
@@ -736,7 +744,7 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 				if err != nil {
 					return nil, err
 				}
-				f[fd.Name] = fieldSchema
+				f[fd.Name] = describedProperty(fieldSchema, fd.Comment)
 			}
 			sch.Properties = f
 			return sch, nil
-- 
2.43.0


From 89227ba2bfd380bfbf0054d6de2c5e84544c8b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:33 +0000
Subject: [PATCH 190/197] fix: OpenAPI imports at the same time do not share
 their examples

---
 openapi/import_openapi.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index d30bad6..6858548 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -10,6 +10,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"sync"
 
 	"github.com/boynton/sadl"
 	"github.com/ghodss/yaml"
@@ -121,11 +122,15 @@ func xParse(data []byte, format string) (*Model, error) {
 }
 */
 
+// the examples found by the import under way, of which there is one at a time
 var examples []*sadl.ExampleDef
+var importing sync.Mutex
 
 var methods = []string{"GET", "PUT", "POST", "DELETE", "HEAD", "PATCH", "OPTIONS"} //to do: "TRACE"
 
 func (model *Model) ToSadl(name string) (*sadl.Model, error) {
+	importing.Lock()
+	defer importing.Unlock()
 	annotations := make(map[string]string, 0)
 	examples = nil
 	annotations["x_openapi_version"] = model.OpenAPI
-- 
2.43.0


From bd264b5c1ac21acbf580ef0ec1b0c50597a4f0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:52 +0000
Subject: [PATCH 191/197] fix: OpenAPI import follows references to parameters,
 bodies, responses and headers

---
 openapi/import_openapi.go | 73 ++++++++++++++++++++++++++++++++++++++-
 openapi/model.go          |  4 +++
 2 files changed, 76 insertions(+), 1 deletion(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 6858548..d5d2bf6 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -204,7 +204,10 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 					continue
 				}
 				if httpBindings {
-					op = withPathParameters(op, path.Parameters)
+					op, err := model.resolveReferences(op, path.Parameters)
+					if err != nil {
+						return nil, err
+					}
 					hact, err := convertOasPath(tmpl, op, method)
 					if err != nil {
 						return nil, err
@@ -486,6 +489,74 @@ func sortedKeys[T any](m map[string]T) []string {
 	return keys
 }
 
+// the operation, with the definitions that it refers to in place of the references, and
+// the parameters of its path that it does not override.
+func (model *Model) resolveReferences(op *Operation, shared []*Parameter) (*Operation, error) {
+	components := model.Components
+	if components == nil {
+		components = &Components{}
+	}
+	resolve := func(params []*Parameter) ([]*Parameter, error) {
+		var resolved []*Parameter
+		for _, param := range params {
+			param, err := definition("parameters", components.Parameters, param, func(p *Parameter) string { return p.Ref })
+			if err != nil {
+				return nil, err
+			}
+			resolved = append(resolved, param)
+		}
+		return resolved, nil
+	}
+	result := *op
+	var err error
+	result.Parameters, err = resolve(op.Parameters)
+	if err != nil {
+		return nil, err
+	}
+	shared, err = resolve(shared)
+	if err != nil {
+		return nil, err
+	}
+	result.RequestBody, err = definition("requestBodies", components.RequestBodies, op.RequestBody, func(b *RequestBody) string { return b.Ref })
+	if err != nil {
+		return nil, err
+	}
+	result.Responses = make(map[string]*Response, 0)
+	for _, status := range sortedKeys(op.Responses) {
+		response, err := definition("responses", components.Responses, op.Responses[status], func(r *Response) string { return r.Ref })
+		if err != nil {
+			return nil, err
+		}
+		if response != nil && len(response.Headers) > 0 {
+			tmp := *response
+			tmp.Headers = make(map[string]*Header, 0)
+			for _, name := range sortedKeys(response.Headers) {
+				tmp.Headers[name], err = definition("headers", components.Headers, response.Headers[name], func(h *Header) string { return h.Ref })
+				if err != nil {
+					return nil, err
+				}
+			}
+			response = &tmp
+		}
+		result.Responses[status] = response
+	}
+	return withPathParameters(&result, shared), nil
+}
+
+// the component of that kind that a definition refers to, or the definition itself if it is no reference.
+func definition[T any](kind string, components map[string]*T, def *T, ref func(*T) string) (*T, error) {
+	prefix := "#/components/" + kind + "/"
+	for n := 0; def != nil && ref(def) != ""; n++ {
+		target := ref(def)
+		next := components[strings.TrimPrefix(target, prefix)]
+		if !strings.HasPrefix(target, prefix) || next == nil || n > len(components) {
+			return nil, fmt.Errorf("Undefined reference: %q", target)
+		}
+		def = next
+	}
+	return def, nil
+}
+
 // the operation, with the parameters of its path that it does not override.
 func withPathParameters(op *Operation, params []*Parameter) *Operation {
 	merged := *op
diff --git a/openapi/model.go b/openapi/model.go
index 09086c7..f7f31d3 100644
--- a/openapi/model.go
+++ b/openapi/model.go
@@ -164,6 +164,7 @@ type Operation struct {
 
 type Parameter struct {
 	Extensions      map[string]interface{} `json:"-"`
+	Ref             string                 `json:"$ref,omitempty"`
 	Name            string                 `json:"name,omitempty"`
 	In              string                 `json:"in,omitempty"`
 	Description     string                 `json:"description,omitempty"`
@@ -181,6 +182,7 @@ type Parameter struct {
 
 type Response struct {
 	Extensions  map[string]interface{} `json:"-"`
+	Ref         string                 `json:"$ref,omitempty"`
 	Description string                 `json:"description,omitempty"`
 	Headers     map[string]*Header     `json:"headers,omitempty"`
 	Content     Content                `json:"content,omitempty"`
@@ -225,6 +227,7 @@ type Encoding struct {
 
 type Header struct {
 	Extensions  map[string]interface{} `json:"-"`
+	Ref         string                 `json:"$ref,omitempty"`
 	Description string                 `json:"description,omitempty"`
 	Schema      *Schema                `json:"schema,omitempty"`
 }
@@ -331,6 +334,7 @@ type Callback map[string]*PathItem
 
 type RequestBody struct {
 	Extensions  map[string]interface{} `json:"-"`
+	Ref         string                 `json:"$ref,omitempty"`
 	Description string                 `json:"description,omitempty"`
 	Required    bool                   `json:"required,omitempty"`
 	Content     Content                `json:"content,omitempty"`
-- 
2.43.0


From 06588bd521810e6262227b96076ef824e64ca729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:52 +0000
Subject: [PATCH 192/197] fix: Swagger import follows references to parameters
 and responses

---
 openapi/import_swagger.go | 53 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 52 insertions(+), 1 deletion(-)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index 6ac99be..1f7e644 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -50,7 +50,7 @@ func toV3(v2 *sadl.Data) (*Model, error) {
 		}
 		model.Info = toV3Info(v2.GetData("info"))
 		model.Components = toV3Components(v2)
-		model.Paths = toV3Paths(model, v2.GetData("paths"), defConsumes, defProduces)
+		model.Paths = toV3Paths(model, withDefinitions(v2), defConsumes, defProduces)
 		model.Servers = toV3Servers(v2)
 		return model, nil
 	}
@@ -64,6 +64,55 @@ func toV3ExternalDocs(v2 *sadl.Data) *ExternalDocumentation {
 	}
 }
 
+// the paths, with the parameters and responses that they refer to in place of the references.
+func withDefinitions(v2 *sadl.Data) *sadl.Data {
+	definition := func(kind string, def interface{}) interface{} {
+		prefix := "#/" + kind + "/"
+		ref := sadl.AsData(def).GetString("$ref")
+		if strings.HasPrefix(ref, prefix) {
+			if target, ok := v2.GetMap(kind)[strings.TrimPrefix(ref, prefix)]; ok {
+				return target
+			}
+		}
+		return def
+	}
+	resolve := func(obj map[string]interface{}) map[string]interface{} {
+		result := make(map[string]interface{}, 0)
+		for k, v := range obj {
+			result[k] = v
+		}
+		if params, ok := obj["parameters"].([]interface{}); ok {
+			var resolved []interface{}
+			for _, param := range params {
+				resolved = append(resolved, definition("parameters", param))
+			}
+			result["parameters"] = resolved
+		}
+		if responses, ok := obj["responses"].(map[string]interface{}); ok {
+			resolved := make(map[string]interface{}, 0)
+			for status, response := range responses {
+				resolved[status] = definition("responses", response)
+			}
+			result["responses"] = resolved
+		}
+		return result
+	}
+	paths := make(map[string]interface{}, 0)
+	for path, v := range v2.GetMap("paths") {
+		if item, ok := v.(map[string]interface{}); ok {
+			resolved := resolve(item)
+			for k, op := range resolved {
+				if opmap, ok := op.(map[string]interface{}); ok {
+					resolved[k] = resolve(opmap)
+				}
+			}
+			v = resolved
+		}
+		paths[path] = v
+	}
+	return sadl.AsData(paths)
+}
+
 func toV3Paths(model *Model, v2 *sadl.Data, defConsumes []string, defProduces []string) map[string]*PathItem {
 	paths := make(map[string]*PathItem, 0)
 	for k, v := range v2.AsMap() {
@@ -115,6 +164,7 @@ func toV3Operation(model *Model, v2 *sadl.Data, shared []interface{}, defConsume
 				tp = paramd.Get("schema")
 			}
 			p := &Parameter{
+				Ref:         paramd.GetString("$ref"),
 				In:          paramd.GetString("in"),
 				Name:        paramd.GetString("name"),
 				Description: paramd.GetString("description"),
@@ -163,6 +213,7 @@ func swaggerParameters(params []interface{}, shared []interface{}) []interface{}
 
 func toV3Response(mediaTypes []string, v2 *sadl.Data) *Response {
 	return &Response{
+		Ref:         v2.GetString("$ref"),
 		Description: v2.GetString("description"),
 		Headers:     toV3Headers(v2.GetMap("headers")),
 		Content:     toV3Content(mediaTypes, v2.Get("schema")),
-- 
2.43.0


From 9e1319ce9704687cf6416cc930c70076a66e7e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:07 +0000
Subject: [PATCH 193/197] fix: JSON models with null members are refused
 instead of crashing

---
 misc.go   | 44 ++++++++++++++++++++++++++++++++++++++++++++
 parser.go |  3 +++
 2 files changed, 47 insertions(+)

diff --git a/misc.go b/misc.go
index 6142c55..d2834d5 100644
--- a/misc.go
+++ b/misc.go
@@ -187,3 +187,47 @@ func AnnotationsAsString(annos map[string]string) string {
 	}
 	return ""
 }
+
+// NullMember returns where the first null is that an array or a map of the value contains in
+// the place of an object, or "" if there is none.
+func NullMember(value interface{}) string {
+	return nullMember("", reflect.ValueOf(value))
+}
+
+func nullMember(path string, v reflect.Value) string {
+	element := func(key interface{}, v reflect.Value) string {
+		elementPath := fmt.Sprintf("%s/%v", path, key)
+		if v.Kind() == reflect.Ptr && v.IsNil() {
+			return elementPath
+		}
+		return nullMember(elementPath, v)
+	}
+	result := ""
+	switch v.Kind() {
+	case reflect.Ptr:
+		if !v.IsNil() {
+			return nullMember(path, v.Elem())
+		}
+	case reflect.Struct:
+		for i := 0; i < v.NumField() && result == ""; i++ {
+			field := v.Type().Field(i)
+			fieldPath := path
+			if !field.Anonymous {
+				fieldPath = path + "/" + strings.Split(field.Tag.Get("json"), ",")[0]
+			}
+			result = nullMember(fieldPath, v.Field(i))
+		}
+	case reflect.Map:
+		for _, key := range v.MapKeys() {
+			tmp := element(key, v.MapIndex(key))
+			if result == "" || tmp != "" && tmp < result {
+				result = tmp
+			}
+		}
+	case reflect.Slice:
+		for i := 0; i < v.Len() && result == ""; i++ {
+			result = element(i, v.Index(i))
+		}
+	}
+	return result
+}
diff --git a/parser.go b/parser.go
index fde31fb..e882634 100644
--- a/parser.go
+++ b/parser.go
@@ -32,6 +32,9 @@ func LoadModel(path string) (*Model, error) {
 	if schema.Sadl == "" {
 		return nil, fmt.Errorf("Cannot load file %q: %v\n", path, err)
 	}
+	if null := NullMember(schema); null != "" {
+		return nil, fmt.Errorf("Cannot load file %q: unexpected null: %s", path, null)
+	}
 	return NewModel(&schema)
 }
 
-- 
2.43.0


From a0adb3b44c35447b128b3b7da9e1b8f48af4b078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:07 +0000
Subject: [PATCH 194/197] fix: OpenAPI import refuses documents with null
 members instead of crashing

---
 openapi/model.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openapi/model.go b/openapi/model.go
index f7f31d3..90fa8ff 100644
--- a/openapi/model.go
+++ b/openapi/model.go
@@ -4,6 +4,8 @@ import (
 	"encoding/json"
 	"fmt"
 	"strings"
+
+	"github.com/boynton/sadl"
 )
 
 func OasError(format string, args ...interface{}) error {
@@ -47,6 +49,9 @@ func Validate(v3 *Model) (*Model, error) {
 	if err != nil {
 		return nil, err
 	}
+	if null := sadl.NullMember(v3); null != "" {
+		return nil, OasError("Unexpected null: %s", null)
+	}
 	return v3, nil
 }
 
-- 
2.43.0


From bf5393a3dabd6b098a311abfc9af1196314eece3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:07 +0000
Subject: [PATCH 195/197] fix: Smithy import refuses shapes without definitions
 and malformed http traits instead of crashing

---
 smithy/export_smithy.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 0f6ccab..b16d043 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -358,6 +358,12 @@ func checkReferences(ast *smithylib.AST) error {
 	}
 	for _, id := range ast.Shapes.Keys() {
 		shape := ast.Shapes.Get(id)
+		if shape == nil {
+			return fmt.Errorf("%s has no definition", id)
+		}
+		if shape.Traits.Has("smithy.api#http") && shape.Traits.GetMap("smithy.api#http") == nil {
+			return fmt.Errorf("%s has an http trait that is not an object", id)
+		}
 		var targets []string
 		var members []*smithylib.Member
 		switch shape.Type {
@@ -377,11 +383,17 @@ func checkReferences(ast *smithylib.AST) error {
 			}
 			targets = append(targets, member.Target)
 		}
-		for _, ref := range append([]*smithylib.ShapeRef{shape.Input, shape.Output}, shape.Errors...) {
+		for _, ref := range []*smithylib.ShapeRef{shape.Input, shape.Output} {
 			if ref != nil {
 				targets = append(targets, ref.Target)
 			}
 		}
+		for _, ref := range shape.Errors {
+			if ref == nil {
+				return fmt.Errorf("%s lacks an error", id)
+			}
+			targets = append(targets, ref.Target)
+		}
 		for _, target := range targets {
 			if err := check(id, target); err != nil {
 				return err
-- 
2.43.0


From 35788585dae0574581014ada19e4c059c7c41095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:31 +0000
Subject: [PATCH 196/197] fix: Go and Java generators refuse models they cannot
 generate instead of crashing

---
 generator.go            |  5 +--
 golang/export_golang.go | 18 ++++++---
 golang/golang_model.go  | 15 ++++++--
 java/export_java.go     |  7 ++++
 model.go                | 85 +++++++++++++++++++++++++++++++++++++++++
 5 files changed, 119 insertions(+), 11 deletions(-)

diff --git a/generator.go b/generator.go
index 0c2228b..3d82950 100644
--- a/generator.go
+++ b/generator.go
@@ -5,7 +5,6 @@ import (
 	"bytes"
 	"fmt"
 	"os"
-	"strings"
 	"text/template"
 )
 
@@ -102,11 +101,11 @@ func (gen *Generator) EmitTemplate(name string, tmplSource string, data interfac
 }
 
 func (gen *Generator) Capitalize(s string) string {
-	return strings.ToUpper(s[0:1]) + s[1:]
+	return Capitalize(s)
 }
 
 func (gen *Generator) Uncapitalize(s string) string {
-	return strings.ToLower(s[0:1]) + s[1:]
+	return Uncapitalize(s)
 }
 
 func (gen *Generator) FileExists(path string) bool {
diff --git a/golang/export_golang.go b/golang/export_golang.go
index f67ddd5..44081a3 100644
--- a/golang/export_golang.go
+++ b/golang/export_golang.go
@@ -13,6 +13,10 @@ import (
 )
 
 func Export(model *sadl.Model, dir string, conf *sadl.Data) error {
+	err := model.CheckReferences()
+	if err != nil {
+		return err
+	}
 	gen := NewGenerator(model, dir, conf)
 	if gen.createModel {
 		gen.CreateModel()
@@ -198,8 +202,11 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 			return "map[string]interface{}"
 		}
 		its := gen.Model.FindType(ts.Items)
-		kts := gen.Model.FindType(ts.Keys)
-		return "map[" + gen.nativeTypeName(&kts.TypeSpec, ts.Keys) + "]" + gen.nativeTypeName(&its.TypeSpec, ts.Items)
+		keyType := "string"
+		if kts := gen.Model.FindType(ts.Keys); kts != nil {
+			keyType = gen.nativeTypeName(&kts.TypeSpec, ts.Keys)
+		}
+		return "map[" + keyType + "]" + gen.nativeTypeName(&its.TypeSpec, ts.Items)
 	case "Timestamp":
 		gen.createTimestamp = true //with the runtime, an alias of its type
 		return "*" + name
@@ -223,7 +230,8 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 		//must be a app-defined class. Parser should have already verified its existence
 		td := gen.Model.FindType(name)
 		if td == nil {
-			panic("Unresolved type, parser should have caught this: " + name)
+			gen.Err = fmt.Errorf("Go generator: undefined type: %q", name)
+			return name
 		}
 		if td.Type == "Struct" || td.Type == "Union" {
 			name = "*" + name
@@ -233,11 +241,11 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 }
 
 func capitalize(s string) string {
-	return strings.ToUpper(s[0:1]) + s[1:]
+	return sadl.Capitalize(s)
 }
 
 func uncapitalize(s string) string {
-	return strings.ToLower(s[0:1]) + s[1:]
+	return sadl.Uncapitalize(s)
 }
 
 func (gen *Generator) EmitTemplate(name string, tmplSource string, data interface{}, funcMap template.FuncMap) {
diff --git a/golang/golang_model.go b/golang/golang_model.go
index 92d9860..1446fa5 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -151,13 +151,22 @@ func (gen *Generator) EmitType(td *sadl.TypeDef, errors map[string]bool) {
 }
 
 func (gen *Generator) EmitArrayType(td *sadl.TypeDef) {
-	itemType := gen.nativeTypeName(&td.TypeSpec, td.Items)
+	itemType := "interface{}"
+	if td.Items != "" {
+		itemType = gen.nativeTypeName(&td.TypeSpec, td.Items)
+	}
 	gen.Emit("type " + td.Name + " []" + itemType + "\n")
 }
 
 func (gen *Generator) EmitMapType(td *sadl.TypeDef) {
-	keyType := gen.nativeTypeName(&td.TypeSpec, td.Keys)
-	itemType := gen.nativeTypeName(&td.TypeSpec, td.Items)
+	keyType := "string"
+	if td.Keys != "" {
+		keyType = gen.nativeTypeName(&td.TypeSpec, td.Keys)
+	}
+	itemType := "interface{}"
+	if td.Items != "" {
+		itemType = gen.nativeTypeName(&td.TypeSpec, td.Items)
+	}
 	gen.Emit("type " + td.Name + " map[" + keyType + "]" + itemType + "\n")
 }
 
diff --git a/java/export_java.go b/java/export_java.go
index 1cab2d2..fdddb4a 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -47,6 +47,10 @@ type Generator struct {
 }
 
 func Export(model *sadl.Model, dir string, conf *sadl.Data) error {
+	err := model.CheckReferences()
+	if err != nil {
+		return err
+	}
 	gen := NewGenerator(model, dir, conf)
 	if gen.ModelCode {
 		gen.CreateModel()
@@ -820,6 +824,9 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 		return "byte[]", annotations, nil
 	case "Any":
 		return "Object", annotations, nil
+	case "":
+		gen.Err = fmt.Errorf("Cannot generate code for something without a type")
+		return name, annotations, nil
 	default:
 		//app-defined type. Parser will have already verified its existence
 		td := gen.Model.FindType(name)
diff --git a/model.go b/model.go
index df0d343..ec7ba78 100644
--- a/model.go
+++ b/model.go
@@ -40,6 +40,91 @@ func NewModel(schema *Schema) (*Model, error) {
 	return model, nil
 }
 
+// CheckReferences reports definitions without a name and references to types that are not
+// defined, which code cannot be generated for.
+func (model *Model) CheckReferences() error {
+	for _, td := range model.Types {
+		if td.Name == "" {
+			return fmt.Errorf("Type without a name: %s", td.Type)
+		}
+		err := model.checkTypeSpec(td.Name, &td.TypeSpec)
+		if err != nil {
+			return err
+		}
+	}
+	for _, hd := range model.Http {
+		if hd.Method == "" || hd.Path == "" {
+			return fmt.Errorf("Action without a method or a path: %q", hd.Name)
+		}
+		params := hd.Inputs
+		if hd.Expected != nil {
+			params = append(append([]*HttpParamSpec{}, params...), hd.Expected.Outputs...)
+		}
+		for _, param := range params {
+			err := model.checkField(hd.Name, &param.StructFieldDef)
+			if err != nil {
+				return err
+			}
+		}
+		for _, exc := range hd.Exceptions {
+			if exc.Type != "" && model.FindType(exc.Type) == nil {
+				return fmt.Errorf("Undefined type: %q in %s", exc.Type, hd.Name)
+			}
+		}
+	}
+	return nil
+}
+
+func (model *Model) checkField(context string, fd *StructFieldDef) error {
+	if fd.Name == "" {
+		return fmt.Errorf("Field or parameter without a name in %s", context)
+	}
+	return model.checkTypeSpec(context+"."+fd.Name, &fd.TypeSpec)
+}
+
+func (model *Model) checkTypeSpec(context string, ts *TypeSpec) error {
+	refs := []string{ts.Type}
+	switch ts.Type {
+	case "UnitValue":
+		refs = append(refs, ts.Unit, ts.Value)
+	case "Array", "Map":
+		for _, ref := range []string{ts.Keys, ts.Items} {
+			if ref != "" {
+				refs = append(refs, ref)
+			}
+		}
+	case "Struct":
+		for _, fd := range ts.Fields {
+			err := model.checkField(context, fd)
+			if err != nil {
+				return err
+			}
+		}
+	case "Union":
+		for _, vd := range ts.Variants {
+			if vd.Name == "" {
+				return fmt.Errorf("Variant without a name in %s", context)
+			}
+			err := model.checkTypeSpec(context+"."+vd.Name, &vd.TypeSpec)
+			if err != nil {
+				return err
+			}
+		}
+	case "Enum":
+		for _, el := range ts.Elements {
+			if el.Symbol == "" {
+				return fmt.Errorf("Symbol without a name in %s", context)
+			}
+		}
+	}
+	for _, ref := range refs {
+		if model.FindType(ref) == nil {
+			return fmt.Errorf("Undefined type: %q in %s", ref, context)
+		}
+	}
+	return nil
+}
+
 func (model *Model) FindType(name string) *TypeDef {
 	if model.typeIndex != nil {
 		if t, ok := model.typeIndex[name]; ok {
-- 
2.43.0


From 74c611ecca828091aba3663dd0a58fdaa4f2e7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:06 +0000
Subject: [PATCH 197/197] fix: generated Go files get the configured header,
 and a header ends before the package

---
 golang/export_golang.go | 5 ++++-
 java/export_java.go     | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/golang/export_golang.go b/golang/export_golang.go
index 44081a3..d4b5e66 100644
--- a/golang/export_golang.go
+++ b/golang/export_golang.go
@@ -57,7 +57,10 @@ func NewGenerator(model *sadl.Model, outdir string, config *sadl.Data) *Generato
 	gen.Config = config
 	gen.OutDir = outdir
 	gen.Model = model
-	gen.Header = "//\n// Generated by sadl\n//\n"
+	gen.Header = gen.GetConfigString("header", "//\n// Generated by sadl\n//\n")
+	if gen.Header != "" && !strings.HasSuffix(gen.Header, "\n") {
+		gen.Header = gen.Header + "\n"
+	}
 	gen.createModel = gen.GetConfigBool("model", true)
 	gen.createServer = gen.GetConfigBool("server", false)
 	gen.createClient = gen.GetConfigBool("client", false)
diff --git a/java/export_java.go b/java/export_java.go
index fdddb4a..8305edb 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -122,6 +122,9 @@ func NewGenerator(model *sadl.Model, outdir string, config *sadl.Data) *Generato
 	}
 	gen.Package = pkg
 	gen.Header = gen.GetConfigString("header", "//\n// Generated by sadl\n//\n")
+	if gen.Header != "" && !strings.HasSuffix(gen.Header, "\n") {
+		gen.Header = gen.Header + "\n"
+	}
 	gen.SourceDir = gen.GetConfigString("source", "src/main/java")
 	gen.ResourceDir = gen.GetConfigString("resource", "src/main/resources")
 	gen.ServiceException = gen.GetConfigBool("service-exception", false)
-- 
2.43.0

