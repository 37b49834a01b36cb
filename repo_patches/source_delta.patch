From 5f83c1f52b3ce0f060ab40e6b28e5931ef9771b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:23 +0000
Subject: [PATCH 01/38] fix: keep single (non-list) params when cloning a
 request

---
 messageimpl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/messageimpl.go b/messageimpl.go
index f90500b..bdfec86 100644
--- a/messageimpl.go
+++ b/messageimpl.go
@@ -319,6 +319,7 @@ func NewRequestMessage(id interface{}, method string, params interface{}) *Reque
 
 func (self RequestMessage) Clone(newId interface{}) *RequestMessage {
 	newReq := NewRequestMessage(newId, self.Method, self.Params)
+	newReq.paramsAreList = self.paramsAreList
 	newReq.SetTraceId(self.traceId)
 	return newReq
 }
-- 
2.43.0


From 49fe66db69d16aa78bfd6464b62aa5ff0fd414c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:10 +0000
Subject: [PATCH 02/38] fix: nan and inf arguments are strings, not numbers
 JSON cannot encode

---
 utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index c7f7505..aa8a58c 100644
--- a/utils.go
+++ b/utils.go
@@ -7,6 +7,7 @@ import (
 	"github.com/mitchellh/mapstructure"
 	"github.com/pkg/errors"
 	log "github.com/sirupsen/logrus"
+	"math"
 	"math/big"
 	"net/http"
 	"os"
@@ -42,7 +43,7 @@ func GuessJson(input string) (interface{}, error) {
 		return iv, nil
 	}
 	fv, err := strconv.ParseFloat(input, 64)
-	if err == nil {
+	if err == nil && !math.IsNaN(fv) && !math.IsInf(fv, 0) {
 		return fv, nil
 	}
 
-- 
2.43.0


From d6354337a800870d982c06d7b2c2ea45d6e65581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:11 +0000
Subject: [PATCH 03/38] fix: reject list, object or quoted arguments followed
 by other text

---
 utils.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/utils.go b/utils.go
index aa8a58c..8a16b62 100644
--- a/utils.go
+++ b/utils.go
@@ -7,6 +7,7 @@ import (
 	"github.com/mitchellh/mapstructure"
 	"github.com/pkg/errors"
 	log "github.com/sirupsen/logrus"
+	"io"
 	"math"
 	"math/big"
 	"net/http"
@@ -24,6 +25,19 @@ func MarshalJson(data interface{}) (string, error) {
 	return string(marshaled), nil
 }
 
+// decodeText decodes input as exactly one json value
+func decodeText(input string, output interface{}) error {
+	dec := json.NewDecoder(strings.NewReader(input))
+	dec.UseNumber()
+	if err := dec.Decode(output); err != nil {
+		return err
+	}
+	if _, err := dec.Token(); err != io.EOF {
+		return errors.New("unexpected text after json value")
+	}
+	return nil
+}
+
 func GuessJson(input string) (interface{}, error) {
 	if len(input) == 0 {
 		return "", nil
@@ -67,9 +81,7 @@ func GuessJson(input string) (interface{}, error) {
 	case '[':
 		// maybe a list
 		var arr []interface{}
-		dec := json.NewDecoder(strings.NewReader(input))
-		dec.UseNumber()
-		err := dec.Decode(&arr)
+		err := decodeText(input, &arr)
 		if err != nil {
 			return nil, err
 		}
@@ -77,9 +89,7 @@ func GuessJson(input string) (interface{}, error) {
 	case '{':
 		// maybe an object
 		var m map[string]interface{}
-		dec := json.NewDecoder(strings.NewReader(input))
-		dec.UseNumber()
-		err := dec.Decode(&m)
+		err := decodeText(input, &m)
 		if err != nil {
 			return nil, err
 		}
@@ -87,9 +97,7 @@ func GuessJson(input string) (interface{}, error) {
 	case '"':
 		// a string quote
 		var s string
-		dec := json.NewDecoder(strings.NewReader(input))
-		dec.UseNumber()
-		err := dec.Decode(&s)
+		err := decodeText(input, &s)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 9d5c66decf68293079d8eed15cda9a272e3c2ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:50 +0000
Subject: [PATCH 04/38] fix: DecodeParams does not panic on null params or nil
 destinations

---
 utils.go | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/utils.go b/utils.go
index 8a16b62..9b9adb1 100644
--- a/utils.go
+++ b/utils.go
@@ -145,7 +145,7 @@ func DecodeInterface(input interface{}, output interface{}) error {
 // / Convert params to a struct field by field
 func DecodeParams(params []interface{}, outputPtr interface{}) error {
 	ptrType := reflect.TypeOf(outputPtr)
-	if ptrType.Kind() != reflect.Ptr {
+	if ptrType == nil || ptrType.Kind() != reflect.Ptr {
 		return errors.New("output is not a pointer")
 	}
 	outputType := ptrType.Elem()
@@ -155,6 +155,9 @@ func DecodeParams(params []interface{}, outputPtr interface{}) error {
 
 	fields := reflect.VisibleFields(outputType)
 	ptrValue := reflect.ValueOf(outputPtr)
+	if ptrValue.IsNil() {
+		return errors.New("output is a nil pointer")
+	}
 	idx := 0
 	for _, field := range fields {
 		if !field.IsExported() {
@@ -165,23 +168,12 @@ func DecodeParams(params []interface{}, outputPtr interface{}) error {
 		}
 		param := params[idx]
 		idx++
-		ov := reflect.Zero(field.Type).Interface()
-		config := &mapstructure.DecoderConfig{
-			Metadata: nil,
-			TagName:  "json",
-			Result:   &ov,
-		}
-		decoder, err := mapstructure.NewDecoder(config)
-		if err != nil {
-			return errors.Wrap(err, "NewDecoder")
-		}
-		err = decoder.Decode(param)
-		if err != nil {
+		ov := reflect.New(field.Type)
+		if err := DecodeInterface(param, ov.Interface()); err != nil {
 			return errors.Wrap(err, "mapstruct.Decode")
 		}
 
-		ptrValue.Elem().FieldByIndex(field.Index).Set(
-			reflect.ValueOf(ov))
+		ptrValue.Elem().FieldByIndex(field.Index).Set(ov.Elem())
 	}
 	return nil
 }
-- 
2.43.0


From c2d8c5a8953537281c0ba5b9e37b4e41f0b4f3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:50 +0000
Subject: [PATCH 05/38] fix: reject numbers an integer field cannot hold
 exactly

---
 utils.go | 43 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/utils.go b/utils.go
index 9b9adb1..1cd178b 100644
--- a/utils.go
+++ b/utils.go
@@ -129,11 +129,48 @@ func NewUuid() string {
 	return strings.ReplaceAll(uuid.New().String(), "-", "")
 }
 
+// intFits tells if a number field can hold i
+func intFits(i int64, field reflect.Value) bool {
+	switch field.Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return !field.OverflowInt(i)
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		return i >= 0 && !field.OverflowUint(uint64(i))
+	default:
+		return true
+	}
+}
+
+// rejectInexact is a decode hook refusing numbers an integer field cannot hold
+func rejectInexact(from reflect.Value, to reflect.Value) (interface{}, error) {
+	data := from.Interface()
+	fits := true
+	switch n := data.(type) {
+	case json.Number:
+		if i, err := n.Int64(); err == nil {
+			fits = intFits(i, to)
+		}
+	case int:
+		fits = intFits(int64(n), to)
+	case int64:
+		fits = intFits(n, to)
+	case float64:
+		if to.Kind() >= reflect.Int && to.Kind() <= reflect.Uint64 {
+			fits = n == math.Trunc(n) && math.Abs(n) < 1<<63 && intFits(int64(n), to)
+		}
+	}
+	if !fits {
+		return nil, errors.Errorf("%v does not fit %s", data, to.Type())
+	}
+	return data, nil
+}
+
 func DecodeInterface(input interface{}, output interface{}) error {
 	config := &mapstructure.DecoderConfig{
-		Metadata: nil,
-		TagName:  "json",
-		Result:   output,
+		DecodeHook: rejectInexact,
+		Metadata:   nil,
+		TagName:    "json",
+		Result:     output,
 	}
 	decoder, err := mapstructure.NewDecoder(config)
 	if err != nil {
-- 
2.43.0


From c3bc2bacbc033fb9be2c79f9ebb987856267d23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:30 +0000
Subject: [PATCH 06/38] fix: Bigint reports text that is not a decimal integer

---
 utils.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/utils.go b/utils.go
index 1cd178b..7dda5d3 100644
--- a/utils.go
+++ b/utils.go
@@ -228,9 +228,12 @@ func (self *Bigint) UnmarshalJSON(data []byte) error {
 
 	if strings.HasPrefix(sd, `"`) {
 		// string repr
-		bi.SetString(sd[1:len(sd)-1], 10)
-	} else {
-		bi.SetString(sd, 10)
+		if err := json.Unmarshal(data, &sd); err != nil {
+			return err
+		}
+	}
+	if _, ok := bi.SetString(sd, 10); !ok {
+		return errors.Errorf("%s is not a decimal integer", data)
 	}
 	return nil
 }
-- 
2.43.0


From 8f92b13ca460799802adde37229b7dc3063ed73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:00 +0000
Subject: [PATCH 07/38] fix: properties of any name are built and malformed
 properties are an error

---
 schema/convert.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/schema/convert.go b/schema/convert.go
index 81ea882..11b7fcf 100644
--- a/schema/convert.go
+++ b/schema/convert.go
@@ -121,7 +121,11 @@ func convertAttrFloat(node map[string]interface{}, attrName string, optional boo
 }
 
 func convertAttrMapOfMap(node map[string](interface{}), attrName string, optional bool) (map[string](map[string]interface{}), bool) {
-	if mm, ok := convertAttrMap(node, attrName, false); ok {
+	if v, ok := node[attrName]; ok {
+		mm, ok := v.(map[string]interface{})
+		if !ok {
+			return nil, false
+		}
 		resMap := make(map[string](map[string]interface{}))
 		for name, value := range mm {
 			mv, ok := convertTypeMap(value)
-- 
2.43.0


From 0a19a37f9d366cb9882fe1fca07bdef3a48206f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:00 +0000
Subject: [PATCH 08/38] fix: a malformed returns attribute is a build error

---
 schema/builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schema/builder.go b/schema/builder.go
index 7b4a6c4..e61a5cf 100644
--- a/schema/builder.go
+++ b/schema/builder.go
@@ -311,6 +311,9 @@ func (self *SchemaBuilder) buildMethodSchema(node map[string](interface{}), path
 			return nil, err
 		}
 		schema.Returns = c
+	} else {
+		newPaths := append(paths, ".returns")
+		return nil, NewBuildError("no valid returns attribute", newPaths)
 	}
 	return schema, nil
 }
-- 
2.43.0


From 775ac73cf2a16779ec9ad863a5d5097e0302229e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:00 +0000
Subject: [PATCH 09/38] fix: integer constraints given as integral floats are
 not ignored

---
 schema/convert.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schema/convert.go b/schema/convert.go
index 11b7fcf..b1c8a18 100644
--- a/schema/convert.go
+++ b/schema/convert.go
@@ -86,6 +86,8 @@ func convertAttrInt(node map[string]interface{}, attrName string, optional bool)
 	if v, ok := node[attrName]; ok {
 		if intv, ok := v.(int); ok {
 			return intv, ok
+		} else if f, ok := v.(float64); ok && f >= -1<<63 && f < 1<<63 && f == float64(int64(f)) {
+			return int(f), true
 		} else if n, ok := v.(json.Number); ok {
 			intv, err := n.Int64()
 			if err != nil {
-- 
2.43.0


From f4b932ea6543370c8612ed9b2fcc6d3debbdb537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:00 +0000
Subject: [PATCH 10/38] fix: malformed bounds, flags and limits are build
 errors, not ignored

---
 schema/builder.go | 24 ++++++++++++++++++++++++
 schema/convert.go |  6 ++++++
 2 files changed, 30 insertions(+)

diff --git a/schema/builder.go b/schema/builder.go
index e61a5cf..219feea 100644
--- a/schema/builder.go
+++ b/schema/builder.go
@@ -219,10 +219,14 @@ func (self *SchemaBuilder) buildListSchema(node map[string](interface{}), paths
 
 	if maxItems, ok := convertAttrInt(node, "maxItems", false); ok && maxItems >= 0 {
 		schema.MaxItems = &maxItems
+	} else if stated(node, "maxItems") {
+		return nil, NewBuildError("maxItems must be a non negative integer", paths)
 	}
 
 	if minItems, ok := convertAttrInt(node, "minItems", false); ok && minItems >= 0 {
 		schema.MinItems = &minItems
+	} else if stated(node, "minItems") {
+		return nil, NewBuildError("minItems must be a non negative integer", paths)
 	}
 	return schema, nil
 }
@@ -322,16 +326,24 @@ func (self *SchemaBuilder) buildNumberSchema(node map[string](interface{}), path
 	schema := NewNumberSchema()
 	if maximum, ok := convertAttrFloat(node, "maximum", false); ok {
 		schema.Maximum = &maximum
+	} else if stated(node, "maximum") {
+		return nil, NewBuildError("maximum must be a number", paths)
 	}
 	if minimum, ok := convertAttrFloat(node, "minimum", false); ok {
 		schema.Minimum = &minimum
+	} else if stated(node, "minimum") {
+		return nil, NewBuildError("minimum must be a number", paths)
 	}
 
 	if exmax, ok := convertAttrBool(node, "exclusiveMaximum", false); ok {
 		schema.ExclusiveMaximum = &exmax
+	} else if stated(node, "exclusiveMaximum") {
+		return nil, NewBuildError("exclusiveMaximum must be bool", paths)
 	}
 	if exmin, ok := convertAttrBool(node, "exclusiveMinimum", false); ok {
 		schema.ExclusiveMinimum = &exmin
+	} else if stated(node, "exclusiveMinimum") {
+		return nil, NewBuildError("exclusiveMinimum must be bool", paths)
 	}
 
 	return schema, nil
@@ -342,17 +354,25 @@ func (self *SchemaBuilder) buildIntegerSchema(node map[string](interface{}), pat
 	if maximum, ok := convertAttrInt(node, "maximum", false); ok {
 		n := int64(maximum)
 		schema.Maximum = &n
+	} else if stated(node, "maximum") {
+		return nil, NewBuildError("maximum must be an integer", paths)
 	}
 	if minimum, ok := convertAttrInt(node, "minimum", false); ok {
 		n := int64(minimum)
 		schema.Minimum = &n
+	} else if stated(node, "minimum") {
+		return nil, NewBuildError("minimum must be an integer", paths)
 	}
 
 	if exmax, ok := convertAttrBool(node, "exclusiveMaximum", false); ok {
 		schema.ExclusiveMaximum = &exmax
+	} else if stated(node, "exclusiveMaximum") {
+		return nil, NewBuildError("exclusiveMaximum must be bool", paths)
 	}
 	if exmin, ok := convertAttrBool(node, "exclusiveMinimum", false); ok {
 		schema.ExclusiveMinimum = &exmin
+	} else if stated(node, "exclusiveMinimum") {
+		return nil, NewBuildError("exclusiveMinimum must be bool", paths)
 	}
 	return schema, nil
 }
@@ -361,10 +381,14 @@ func (self *SchemaBuilder) buildStringSchema(node map[string](interface{}), path
 	schema := NewStringSchema()
 	if maxLength, ok := convertAttrInt(node, "maxLength", false); ok && maxLength >= 0 {
 		schema.MaxLength = &maxLength
+	} else if stated(node, "maxLength") {
+		return nil, NewBuildError("maxLength must be a non negative integer", paths)
 	}
 
 	if minLength, ok := convertAttrInt(node, "minLength", false); ok && minLength >= 0 {
 		schema.MinLength = &minLength
+	} else if stated(node, "minLength") {
+		return nil, NewBuildError("minLength must be a non negative integer", paths)
 	}
 
 	return schema, nil
diff --git a/schema/convert.go b/schema/convert.go
index b1c8a18..cd3c27f 100644
--- a/schema/convert.go
+++ b/schema/convert.go
@@ -48,6 +48,12 @@ func convertTypeMap(maybeType interface{}) (map[string]interface{}, bool) {
 	}
 }
 
+// whether the node has the attribute
+func stated(node map[string]interface{}, attrName string) bool {
+	_, ok := node[attrName]
+	return ok
+}
+
 func convertAttrMap(node map[string]interface{}, attrName string, optional bool) (map[string]interface{}, bool) {
 	if v, ok := node[attrName]; ok {
 		return convertTypeMap(v)
-- 
2.43.0


From ac1f47d615c6581b6f1dbe88b64da82957fdd810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:00 +0000
Subject: [PATCH 11/38] fix: Map keeps length limits, item limits, additional
 items and exclusive flags

---
 schema/schema.go | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/schema/schema.go b/schema/schema.go
index 307aa0f..cbe1af0 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -132,16 +132,16 @@ func (self NumberSchema) Map() map[string]interface{} {
 	tp := self.rebuildType(self.Type())
 	if self.Maximum != nil {
 		tp["maximum"] = *self.Maximum
-		if self.ExclusiveMaximum != nil {
-			tp["exclusiveMaximum"] = *self.ExclusiveMaximum
-		}
+	}
+	if self.ExclusiveMaximum != nil {
+		tp["exclusiveMaximum"] = *self.ExclusiveMaximum
 	}
 
 	if self.Minimum != nil {
 		tp["minimum"] = *self.Minimum
-		if self.ExclusiveMinimum != nil {
-			tp["exclusiveMinimum"] = *self.ExclusiveMinimum
-		}
+	}
+	if self.ExclusiveMinimum != nil {
+		tp["exclusiveMinimum"] = *self.ExclusiveMinimum
 	}
 	return tp
 }
@@ -203,16 +203,16 @@ func (self IntegerSchema) Map() map[string]interface{} {
 	tp := self.rebuildType(self.Type())
 	if self.Maximum != nil {
 		tp["maximum"] = *self.Maximum
-		if self.ExclusiveMaximum != nil {
-			tp["exclusiveMaximum"] = *self.ExclusiveMaximum
-		}
+	}
+	if self.ExclusiveMaximum != nil {
+		tp["exclusiveMaximum"] = *self.ExclusiveMaximum
 	}
 
 	if self.Minimum != nil {
 		tp["minimum"] = *self.Minimum
-		if self.ExclusiveMinimum != nil {
-			tp["exclusiveMinimum"] = *self.ExclusiveMinimum
-		}
+	}
+	if self.ExclusiveMinimum != nil {
+		tp["exclusiveMinimum"] = *self.ExclusiveMinimum
 	}
 	return tp
 }
@@ -283,7 +283,14 @@ func (self StringSchema) Type() string {
 	return "string"
 }
 func (self StringSchema) Map() map[string]interface{} {
-	return self.rebuildType(self.Type())
+	tp := self.rebuildType(self.Type())
+	if self.MaxLength != nil {
+		tp["maxLength"] = *self.MaxLength
+	}
+	if self.MinLength != nil {
+		tp["minLength"] = *self.MinLength
+	}
+	return tp
 }
 
 func (self StringSchema) Equal(other Schema) bool {
@@ -440,6 +447,12 @@ func (self ListSchema) Equal(other Schema) bool {
 func (self ListSchema) Map() map[string]interface{} {
 	tp := self.rebuildType(self.Type())
 	tp["items"] = self.Item.Map()
+	if self.MaxItems != nil {
+		tp["maxItems"] = *self.MaxItems
+	}
+	if self.MinItems != nil {
+		tp["minItems"] = *self.MinItems
+	}
 	return tp
 }
 
@@ -491,6 +504,9 @@ func (self TupleSchema) Map() map[string]interface{} {
 		arr = append(arr, child.Map())
 	}
 	tp["items"] = arr
+	if self.AdditionalSchema != nil {
+		tp["additionalItems"] = self.AdditionalSchema.Map()
+	}
 	return tp
 }
 
-- 
2.43.0


From ca5ac0ac0ac0f2a5c79cc4c2a542be0ffcddf5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:00 +0000
Subject: [PATCH 12/38] fix: FixYamlMaps normalises maps below string-keyed
 maps

---
 schema/builder.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/schema/builder.go b/schema/builder.go
index 219feea..49d10f7 100644
--- a/schema/builder.go
+++ b/schema/builder.go
@@ -63,6 +63,17 @@ func (self SchemaBuilder) FixYamlMaps(src interface{}, paths ...string) (interfa
 			}
 		}
 		return strMap, nil
+	} else if srcMap, ok := src.(map[string]interface{}); ok {
+		strMap := make(map[string]interface{})
+		for k, v := range srcMap {
+			newPaths := append(paths, fmt.Sprintf(".%s", k))
+			newV, err := self.FixYamlMaps(v, newPaths...)
+			if err != nil {
+				return nil, err
+			}
+			strMap[k] = newV
+		}
+		return strMap, nil
 	} else if anyList, ok := src.([]interface{}); ok {
 		list1 := make([]interface{}, 0)
 		for i, elem := range anyList {
-- 
2.43.0


From 25fc59c2d5341a9ae6cdcb086f6fb273333e58a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:12 +0000
Subject: [PATCH 13/38] fix: GetSchema reports the schema of the handler that
 runs

---
 http/request.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/http/request.go b/http/request.go
index 41b9330..a696279 100644
--- a/http/request.go
+++ b/http/request.go
@@ -268,12 +268,12 @@ func (self Actor) MethodList() []string {
 
 // get the schema of a method
 func (self Actor) GetSchema(method string) (jlibschema.Schema, bool) {
-	if h, ok := self.getHandler(method); ok && h.schema != nil {
-		return h.schema, true
+	if h, ok := self.getHandler(method); ok {
+		return h.schema, h.schema != nil
 	}
 	for _, child := range self.children {
-		if s, ok := child.GetSchema(method); ok {
-			return s, ok
+		if child.Has(method) {
+			return child.GetSchema(method)
 		}
 	}
 	return nil, false
-- 
2.43.0


From 92874cd8d256741ac2e3e954e419cd93d247e0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:02 +0000
Subject: [PATCH 14/38] fix: typed handler arguments that are null or do not
 fit no longer crash or wrap

---
 http/typewrap.go | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/http/typewrap.go b/http/typewrap.go
index 5367bb8..88850c2 100644
--- a/http/typewrap.go
+++ b/http/typewrap.go
@@ -15,21 +15,11 @@ func typeIsStruct(tp reflect.Type) bool {
 }
 
 func interfaceToValue(a interface{}, outputType reflect.Type) (reflect.Value, error) {
-	output := reflect.Zero(outputType).Interface()
-	config := &mapstructure.DecoderConfig{
-		Metadata: nil,
-		TagName:  "json",
-		Result:   &output,
-	}
-	decoder, err := mapstructure.NewDecoder(config)
-	if err != nil {
-		return reflect.Value{}, err
-	}
-	err = decoder.Decode(a)
-	if err != nil {
+	output := reflect.New(outputType)
+	if err := jlib.DecodeInterface(a, output.Interface()); err != nil {
 		return reflect.Value{}, err
 	}
-	return reflect.ValueOf(output), nil
+	return output.Elem(), nil
 }
 
 func valueToInterface(tp reflect.Type, val reflect.Value) (interface{}, error) {
-- 
2.43.0


From 8ec2f5e3e16809b507fef5d20a8309ac6d93eba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:02 +0000
Subject: [PATCH 15/38] fix: typed handler results reach the caller as returned

---
 http/typewrap.go | 34 +---------------------------------
 1 file changed, 1 insertion(+), 33 deletions(-)

diff --git a/http/typewrap.go b/http/typewrap.go
index 88850c2..dcf812c 100644
--- a/http/typewrap.go
+++ b/http/typewrap.go
@@ -3,17 +3,11 @@ package jlibhttp
 import (
 	"context"
 	"fmt"
-	"github.com/mitchellh/mapstructure"
 	"github.com/pkg/errors"
 	"github.com/superisaac/jlib"
 	"reflect"
 )
 
-func typeIsStruct(tp reflect.Type) bool {
-	return (tp.Kind() == reflect.Struct ||
-		(tp.Kind() == reflect.Ptr && typeIsStruct(tp.Elem())))
-}
-
 func interfaceToValue(a interface{}, outputType reflect.Type) (reflect.Value, error) {
 	output := reflect.New(outputType)
 	if err := jlib.DecodeInterface(a, output.Interface()); err != nil {
@@ -22,29 +16,6 @@ func interfaceToValue(a interface{}, outputType reflect.Type) (reflect.Value, er
 	return output.Elem(), nil
 }
 
-func valueToInterface(tp reflect.Type, val reflect.Value) (interface{}, error) {
-	var output interface{}
-	if typeIsStruct(tp) {
-		output = make(map[string]interface{})
-	} else {
-		output = reflect.Zero(tp).Interface()
-	}
-	config := &mapstructure.DecoderConfig{
-		Metadata: nil,
-		TagName:  "json",
-		Result:   &output,
-	}
-	decoder, err := mapstructure.NewDecoder(config)
-	if err != nil {
-		return nil, err
-	}
-	err = decoder.Decode(val.Interface())
-	if err != nil {
-		return nil, err
-	}
-	return output, nil
-}
-
 type FirstArgSpec interface {
 	Check(firstArgType reflect.Type) bool
 	Value(req *RPCRequest) interface{}
@@ -141,7 +112,6 @@ func wrapTyped(tfunc interface{}, firstArgSpec FirstArgSpec) (RequestCallback, e
 
 		// wrap result
 		resValues := reflect.ValueOf(tfunc).Call(fnArgs)
-		resType := funcType.Out(0)
 		errRes := resValues[1].Interface()
 		if errRes != nil {
 			if err, ok := errRes.(error); ok {
@@ -151,9 +121,7 @@ func wrapTyped(tfunc interface{}, firstArgSpec FirstArgSpec) (RequestCallback, e
 			}
 		}
 
-		res, err := valueToInterface(
-			resType, resValues[0])
-		return res, err
+		return resValues[0].Interface(), nil
 	}
 
 	return handler, nil
-- 
2.43.0


From 8ff1215f5e46eb308bbdf25708f74cd8993d4ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:02 +0000
Subject: [PATCH 16/38] fix: refuse variadic typed handlers, calling them
 crashed

---
 http/typewrap.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/http/typewrap.go b/http/typewrap.go
index dcf812c..e9b06ce 100644
--- a/http/typewrap.go
+++ b/http/typewrap.go
@@ -54,6 +54,10 @@ func wrapTyped(tfunc interface{}, firstArgSpec FirstArgSpec) (RequestCallback, e
 		return nil, errors.New("tfunc is not func type")
 	}
 
+	if funcType.IsVariadic() {
+		return nil, errors.New("tfunc must not be variadic")
+	}
+
 	numIn := funcType.NumIn()
 
 	requireFirstArg := firstArgSpec != (FirstArgSpec)(nil)
-- 
2.43.0


From 7873dbb058858db484c6df1d944226a69c26804f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:50 +0000
Subject: [PATCH 17/38] fix: an Authorization header of just "Bearer" is
 refused instead of crashing the token check

---
 http/auth_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/auth_handler.go b/http/auth_handler.go
index 2664dcc..e079742 100644
--- a/http/auth_handler.go
+++ b/http/auth_handler.go
@@ -121,7 +121,7 @@ func (self *AuthHandler) jwtAuth(jwtCfg *JwtAuthConfig, r *http.Request) (*AuthI
 	if authHeader == "" {
 		return nil, false
 	}
-	if arr := strings.SplitN(authHeader, " ", 2); len(arr) <= 2 && arr[0] == "Bearer" {
+	if arr := strings.SplitN(authHeader, " ", 2); len(arr) == 2 && arr[0] == "Bearer" {
 		var claims *jwtClaims
 		fromCache := false
 
-- 
2.43.0


From 431920fc1d832f3c6e599f1e23b3a3d53c0d9924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:09 +0000
Subject: [PATCH 18/38] fix: validating a missing TLS configuration reports it
 valid instead of crashing

---
 http/server_utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/http/server_utils.go b/http/server_utils.go
index 0e9f5b7..33fb968 100644
--- a/http/server_utils.go
+++ b/http/server_utils.go
@@ -14,6 +14,10 @@ type TLSConfig struct {
 }
 
 func (self *TLSConfig) ValidateValues() error {
+	if self == nil {
+		return nil
+	}
+
 	if self.Certfile == "" {
 		return errors.New("certfile is empty")
 	}
-- 
2.43.0


From 17e8beecc672c70b6c5adfd61ec029978e47d28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:06 +0000
Subject: [PATCH 19/38] fix: HTTP/1.1 answers carry their content type and
 trace id headers

---
 http/h1_server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/http/h1_server.go b/http/h1_server.go
index 00d660c..1b67b28 100644
--- a/http/h1_server.go
+++ b/http/h1_server.go
@@ -83,12 +83,12 @@ func (self *H1Handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			errmsg := jlib.ErrInternalError.ToMessageFromId(msg.MustId(), msg.TraceId())
 			data, _ = jlib.MessageBytes(errmsg)
 		}
-		w.WriteHeader(200)
+		// headers must be set before the status is written
 		w.Header().Set("Content-Type", "application/json")
-
 		if traceId != "" {
 			w.Header().Set("X-Trace-Id", traceId)
 		}
+		w.WriteHeader(200)
 		w.Write(data)
 	} else {
 		w.WriteHeader(200)
-- 
2.43.0


From 35f0bb911e11b90433de25aace84e028cc622059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:06 +0000
Subject: [PATCH 20/38] fix: the HTTP/1.1 server reads the trace id the client
 sends in the header

---
 http/h1_server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/http/h1_server.go b/http/h1_server.go
index 1b67b28..20f8a97 100644
--- a/http/h1_server.go
+++ b/http/h1_server.go
@@ -42,6 +42,11 @@ func (self *H1Handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	// the client moves the trace id into the header
+	if traceId := r.Header.Get("X-Trace-Id"); traceId != "" {
+		msg.SetTraceId(traceId)
+	}
+
 	req := NewRPCRequest(r.Context(), msg, TransportHTTP, r)
 	resmsg, err := self.Actor.Feed(req)
 	if err != nil {
-- 
2.43.0


From b843f95df85f0c3f8e252f8b283d06a485642cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:54 +0000
Subject: [PATCH 21/38] fix: the HTTP/1.1 client leaves the trace id of the
 caller's message alone

---
 http/h1_client.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/http/h1_client.go b/http/h1_client.go
index 27b0b78..46d0b33 100644
--- a/http/h1_client.go
+++ b/http/h1_client.go
@@ -103,6 +103,7 @@ func (self *H1Client) request(rootCtx context.Context, reqmsg *jlib.RequestMessa
 	reqmsg.SetTraceId("")
 
 	marshaled, err := jlib.MessageBytes(reqmsg)
+	reqmsg.SetTraceId(traceId)
 	if err != nil {
 		return nil, err
 	}
@@ -175,6 +176,7 @@ func (self *H1Client) Send(rootCtx context.Context, msg jlib.Message) error {
 	msg.SetTraceId("")
 
 	marshaled, err := jlib.MessageBytes(msg)
+	msg.SetTraceId(traceId)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 477e23b1a85b46c97be2bf76c211fc75abfb1813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:54 +0000
Subject: [PATCH 22/38] fix: an HTTP/1.1 answer that is neither result nor
 error is an error, not a panic in UnwrapCall

---
 http/h1_client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/http/h1_client.go b/http/h1_client.go
index 46d0b33..7c9098c 100644
--- a/http/h1_client.go
+++ b/http/h1_client.go
@@ -165,6 +165,9 @@ func (self *H1Client) request(rootCtx context.Context, reqmsg *jlib.RequestMessa
 	if err != nil {
 		return nil, err
 	}
+	if !respmsg.IsResultOrError() {
+		return nil, errors.New("response is neither result nor error message")
+	}
 	respmsg.SetTraceId(traceId)
 	return respmsg, nil
 }
-- 
2.43.0


From 29b998c3883aca6ca75d585eb3a988d0fb329552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:38 +0000
Subject: [PATCH 23/38] fix: the gateway recognises the Upgrade header in any
 letter case

---
 http/gateway_handler.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/http/gateway_handler.go b/http/gateway_handler.go
index 5c8791d..dacfcac 100644
--- a/http/gateway_handler.go
+++ b/http/gateway_handler.go
@@ -3,6 +3,7 @@ package jlibhttp
 import (
 	"context"
 	"net/http"
+	"strings"
 )
 
 // shared handler serve http1/http2/websocket server over the same port
@@ -44,7 +45,8 @@ func (self *GatewayHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	upgradeHeader := r.Header.Get("Upgrade")
+	// protocol names are case-insensitive
+	upgradeHeader := strings.ToLower(r.Header.Get("Upgrade"))
 	if upgradeHeader == "websocket" {
 		// maybe websocket handler
 		self.wsHandler.ServeHTTP(w, r)
-- 
2.43.0


From 51ba81216195a92ddd74c9ed4a0996a16df02e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:18 +0000
Subject: [PATCH 24/38] fix: recover panics of the missing handler for messages
 that are not requests

---
 http/request.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/http/request.go b/http/request.go
index a696279..ac68917 100644
--- a/http/request.go
+++ b/http/request.go
@@ -293,8 +293,7 @@ func (self *Actor) Feed(req *RPCRequest) (jlib.Message, error) {
 	msg := req.Msg()
 	if !msg.IsRequestOrNotify() {
 		if self.missingHandler != nil {
-			res, err := self.missingHandler(req)
-			return self.wrapResult(res, err, msg)
+			return self.recoverCallMissingHandler(req)
 		} else {
 			req.Log().Info("no handler to handle this message")
 			return nil, nil
-- 
2.43.0


From f379bdd85ec88fe268250046b9b02b88599083b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 25/38] fix: register the id of a streaming call atomically

---
 http/streaming_client.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/http/streaming_client.go b/http/streaming_client.go
index 61d43f0..4f67df2 100644
--- a/http/streaming_client.go
+++ b/http/streaming_client.go
@@ -337,17 +337,17 @@ func (self *StreamingClient) request(rootCtx context.Context, reqmsg *jlib.Reque
 	}
 	ch := make(chan jlib.Message, 10)
 
-	sendmsg := reqmsg
-	if _, loaded := self.pendingRequests.Load(reqmsg.Id); loaded {
-		sendmsg = reqmsg.Clone(jlib.NewUuid())
-	}
-
 	p := &pendingRequest{
 		reqmsg:        reqmsg,
 		resultChannel: ch,
 		expire:        time.Now().Add(time.Second * 10),
 	}
-	self.pendingRequests.Store(sendmsg.Id, p)
+
+	sendmsg := reqmsg
+	if _, loaded := self.pendingRequests.LoadOrStore(reqmsg.Id, p); loaded {
+		sendmsg = reqmsg.Clone(jlib.NewUuid())
+		self.pendingRequests.Store(sendmsg.Id, p)
+	}
 
 	err = self.Send(rootCtx, sendmsg)
 	if err != nil {
-- 
2.43.0


From 2e8d5fe246871109ec60349de2ab95f222c9fa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 26/38] fix: a streaming call's timeout does not end a later
 call with the same id

---
 http/streaming_client.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/http/streaming_client.go b/http/streaming_client.go
index 4f67df2..1fa8b13 100644
--- a/http/streaming_client.go
+++ b/http/streaming_client.go
@@ -289,19 +289,17 @@ func (self *StreamingClient) handleResult(msg jlib.Message) {
 	}
 }
 
-func (self *StreamingClient) expire(k interface{}, after time.Duration) {
+func (self *StreamingClient) expire(k interface{}, p *pendingRequest, after time.Duration) {
 	// ctx, cancel := context.WithCancel(rootCtx)
 	// defer cancel()
 	select {
 	// case <- ctx.Done():
 	// 	return
 	case <-time.After(after):
-		v, loaded := self.pendingRequests.LoadAndDelete(k)
-		if loaded {
-			if pending, ok := v.(*pendingRequest); ok {
-				timeout := jlib.ErrTimeout.ToMessage(pending.reqmsg)
-				pending.resultChannel <- timeout
-			}
+		// the id may belong to a later request by now
+		if self.pendingRequests.CompareAndDelete(k, p) {
+			timeout := jlib.ErrTimeout.ToMessage(p.reqmsg)
+			p.resultChannel <- timeout
 		}
 	}
 }
@@ -353,7 +351,7 @@ func (self *StreamingClient) request(rootCtx context.Context, reqmsg *jlib.Reque
 	if err != nil {
 		return nil, err
 	}
-	go self.expire(sendmsg.Id, time.Second*10)
+	go self.expire(sendmsg.Id, p, time.Second*10)
 
 	resmsg, ok := <-ch
 	if !ok {
-- 
2.43.0


From 7d5d8fed588ca96b00c059ca9251c321a234fe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 27/38] fix: streaming calls with ids that are neither int nor
 string get their answers

---
 http/streaming_client.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/http/streaming_client.go b/http/streaming_client.go
index 1fa8b13..b482468 100644
--- a/http/streaming_client.go
+++ b/http/streaming_client.go
@@ -342,7 +342,11 @@ func (self *StreamingClient) request(rootCtx context.Context, reqmsg *jlib.Reque
 	}
 
 	sendmsg := reqmsg
-	if _, loaded := self.pendingRequests.LoadOrStore(reqmsg.Id, p); loaded {
+	loaded := !isWireId(reqmsg.Id)
+	if !loaded {
+		_, loaded = self.pendingRequests.LoadOrStore(reqmsg.Id, p)
+	}
+	if loaded {
 		sendmsg = reqmsg.Clone(jlib.NewUuid())
 		self.pendingRequests.Store(sendmsg.Id, p)
 	}
@@ -360,6 +364,16 @@ func (self *StreamingClient) request(rootCtx context.Context, reqmsg *jlib.Reque
 	return resmsg, nil
 }
 
+// isWireId tells whether an id reads back from the wire as the same value
+func isWireId(id interface{}) bool {
+	switch id.(type) {
+	case int, string:
+		return true
+	default:
+		return false
+	}
+}
+
 func (self *StreamingClient) Send(rootCtx context.Context, msg jlib.Message) error {
 	err := self.Connect(rootCtx)
 	if err != nil {
-- 
2.43.0


From ae34eb512fcbed6e2287c72b9677566b4a138c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 28/38] fix: losing or closing a streaming connection leaves no
 caller or waiter blocked

The state of a connection is kept apart from the client, ended once and not
touched by the loops of an earlier connection; the close handler runs for each
connection.
---
 http/streaming_client.go | 158 ++++++++++++++++++++++++++-------------
 1 file changed, 108 insertions(+), 50 deletions(-)

diff --git a/http/streaming_client.go b/http/streaming_client.go
index b482468..cef1161 100644
--- a/http/streaming_client.go
+++ b/http/streaming_client.go
@@ -22,6 +22,22 @@ type pendingRequest struct {
 var TransportConnectFailed = errors.New("connect refused")
 var TransportClosed = errors.New("streaming closed")
 
+// streamingConn is the state of one connection
+type streamingConn struct {
+	// connection context, it is done as soon as the connection ended
+	ctx context.Context
+
+	// func accompanied by context, this func is called when
+	// client want to deliberatly close the connection
+	cancelFunc func()
+
+	// send channel to write messsage sequencially
+	sendChannel chan jlib.Message
+
+	// channel to wait until connection closed
+	closeChannel chan error
+}
+
 // the underline transport, currently there are websocket and gRPC
 // implementations
 type Transport interface {
@@ -54,15 +70,15 @@ type StreamingClient struct {
 	// on close handler
 	closeHandler CloseHandler
 
-	// func accompanied by context, this func is called when
-	// client want to deliberatly close the connection
-	cancelFunc func()
+	// lock to protect conn
+	connLock sync.Mutex
 
-	// send channel to write messsage sequencially
-	sendChannel chan jlib.Message
+	// current connection, nil if not connected
+	conn *streamingConn
 
-	// channel to wait until connection closed
-	closeChannel chan error
+	// read lock is held while the transport reads and writes,
+	// write lock is held while the transport connects
+	transportLock sync.RWMutex
 
 	// the underline transport adaptor in charge of read/write
 	// bytes
@@ -101,18 +117,26 @@ func (self *StreamingClient) ServerURL() *url.URL {
 func (self *StreamingClient) InitStreaming(serverUrl *url.URL, transport Transport) {
 	self.serverUrl = serverUrl
 	self.transport = transport
-	self.sendChannel = nil
-	self.closeChannel = nil
+	self.conn = nil
+}
+
+func (self *StreamingClient) currentConn() *streamingConn {
+	self.connLock.Lock()
+	defer self.connLock.Unlock()
+	return self.conn
 }
 
 func (self *StreamingClient) CloseChannel() chan error {
-	return self.closeChannel
+	if conn := self.currentConn(); conn != nil {
+		return conn.closeChannel
+	}
+	return nil
 }
 
 // wait connection close and return error
 func (self *StreamingClient) Wait() error {
-	if self.closeChannel != nil {
-		err := <-self.closeChannel
+	if closeChannel := self.CloseChannel(); closeChannel != nil {
+		err := <-closeChannel
 		return err
 	} else {
 		// client not connected, just return
@@ -127,17 +151,27 @@ func (self *StreamingClient) Close() {
 }
 
 func (self *StreamingClient) Reset(err error) {
-	if self.cancelFunc != nil {
-		self.cancelFunc()
-		self.cancelFunc = nil
+	if conn := self.currentConn(); conn != nil {
+		self.endConn(conn, err)
+	} else {
+		self.transport.Close()
 	}
+}
+
+// end a connection unless it is already ended
+func (self *StreamingClient) endConn(conn *streamingConn, err error) {
+	self.connLock.Lock()
+	defer self.connLock.Unlock()
 
-	if self.closeChannel != nil {
-		self.closeChannel <- err
-		self.closeChannel = nil
+	if self.conn != conn {
+		return
 	}
+	self.conn = nil
+	conn.cancelFunc()
 	self.transport.Close()
-	self.sendChannel = nil
+
+	conn.closeChannel <- err
+	close(conn.closeChannel)
 }
 
 func (self *StreamingClient) OnMessage(handler MessageHandler) error {
@@ -169,7 +203,11 @@ func (self *StreamingClient) Connect(rootCtx context.Context) error {
 	defer self.connectLock.Unlock()
 
 	if !self.transport.Connected() {
-		if err := self.transport.Connect(rootCtx, self.serverUrl, self.extraHeader); err != nil {
+		// wait until the last connection is out of use
+		self.transportLock.Lock()
+		err := self.transport.Connect(rootCtx, self.serverUrl, self.extraHeader)
+		self.transportLock.Unlock()
+		if err != nil {
 			//self.connectErr = err
 			return err
 		}
@@ -177,25 +215,30 @@ func (self *StreamingClient) Connect(rootCtx context.Context) error {
 			self.connectedHandler()
 		}
 		connCtx, cancel := context.WithCancel(rootCtx)
-		self.cancelFunc = cancel
-		self.sendChannel = make(chan jlib.Message, 100)
-		self.closeChannel = make(chan error, 10)
-		go self.sendLoop(connCtx)
-		go self.recvLoop()
+		conn := &streamingConn{
+			ctx:          connCtx,
+			cancelFunc:   cancel,
+			sendChannel:  make(chan jlib.Message, 100),
+			closeChannel: make(chan error, 10),
+		}
+		self.connLock.Lock()
+		self.conn = conn
+		self.connLock.Unlock()
+		go self.sendLoop(conn)
+		go self.recvLoop(conn)
 	} else {
 		self.Log().Debug("client already connected")
 	}
 	return nil
 }
 
-func (self *StreamingClient) handleError(err error) {
+func (self *StreamingClient) handleError(conn *streamingConn, err error) {
 	if errors.Is(err, TransportClosed) {
 		self.Log().Debug("transport closed")
 	}
-	self.Reset(err)
+	self.endConn(conn, err)
 	if self.closeHandler != nil {
 		self.closeHandler()
-		self.closeHandler = nil
 	}
 }
 
@@ -203,53 +246,60 @@ func (self *StreamingClient) Connected() bool {
 	return self.transport.Connected()
 }
 
-func (self *StreamingClient) sendLoop(connCtx context.Context) {
+func (self *StreamingClient) writeMessage(conn *streamingConn, msg jlib.Message) error {
+	self.transportLock.RLock()
+	defer self.transportLock.RUnlock()
+	if conn.ctx.Err() != nil {
+		return TransportClosed
+	}
+	return self.transport.WriteMessage(msg)
+}
+
+func (self *StreamingClient) readMessage(conn *streamingConn) (jlib.Message, bool, error) {
+	self.transportLock.RLock()
+	defer self.transportLock.RUnlock()
+	if conn.ctx.Err() != nil {
+		return nil, false, TransportClosed
+	}
+	return self.transport.ReadMessage()
+}
+
+func (self *StreamingClient) sendLoop(conn *streamingConn) {
 	//defer self.Reset(nil)
 	defer func() {
 		self.Log().Debug("sendLoop stop")
 	}()
-	ctx, cancel := context.WithCancel(connCtx)
-	defer cancel()
 
 	self.Log().Debug("sendLoop start")
 	for {
-		if !self.transport.Connected() {
-			return
-		}
 		select {
-		case <-ctx.Done():
+		case <-conn.ctx.Done():
 			self.Log().Debug("ctx Done")
-			self.Close()
+			self.endConn(conn, nil)
 			return
-		case msg, ok := <-self.sendChannel:
+		case msg, ok := <-conn.sendChannel:
 			if !ok {
 				return
 			}
-			if !self.transport.Connected() {
-				return
-			}
-			err := self.transport.WriteMessage(msg)
+			err := self.writeMessage(conn, msg)
 			if err != nil {
 				self.Log().Warnf("write msg error %s", err)
-				self.handleError(err)
+				self.endConn(conn, err)
 				return
 			}
 		}
 	}
 }
 
-func (self *StreamingClient) recvLoop() {
+func (self *StreamingClient) recvLoop(conn *streamingConn) {
 	self.Log().Debug("recvLoop start")
 	defer func() {
 		self.Log().Debug("recvLoop stop")
 	}()
 	for {
-		if !self.transport.Connected() {
-			return
-		}
-		msg, readed, err := self.transport.ReadMessage()
+		msg, readed, err := self.readMessage(conn)
 		if err != nil {
-			self.handleError(err)
+			self.handleError(conn, err)
 			return
 		}
 		if !readed {
@@ -379,6 +429,14 @@ func (self *StreamingClient) Send(rootCtx context.Context, msg jlib.Message) err
 	if err != nil {
 		return err
 	}
-	self.sendChannel <- msg
-	return nil
+	conn := self.currentConn()
+	if conn == nil {
+		return TransportClosed
+	}
+	select {
+	case <-conn.ctx.Done():
+		return TransportClosed
+	case conn.sendChannel <- msg:
+		return nil
+	}
 }
-- 
2.43.0


From 0ada485f06ad52c7a037c5fb2165a48a3c4fd54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:33 +0000
Subject: [PATCH 29/38] fix: the connected handler of a streaming client may
 use the client

---
 http/streaming_client.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/http/streaming_client.go b/http/streaming_client.go
index cef1161..592a916 100644
--- a/http/streaming_client.go
+++ b/http/streaming_client.go
@@ -199,6 +199,19 @@ func (self *StreamingClient) OnClose(handler CloseHandler) error {
 }
 
 func (self *StreamingClient) Connect(rootCtx context.Context) error {
+	connected, err := self.connect(rootCtx)
+	if err != nil {
+		return err
+	}
+	if connected && self.connectedHandler != nil {
+		// the handler may use the client
+		self.connectedHandler()
+	}
+	return nil
+}
+
+// connect unless already connected, returns true if a new connection is made
+func (self *StreamingClient) connect(rootCtx context.Context) (bool, error) {
 	self.connectLock.Lock()
 	defer self.connectLock.Unlock()
 
@@ -209,10 +222,7 @@ func (self *StreamingClient) Connect(rootCtx context.Context) error {
 		self.transportLock.Unlock()
 		if err != nil {
 			//self.connectErr = err
-			return err
-		}
-		if self.connectedHandler != nil {
-			self.connectedHandler()
+			return false, err
 		}
 		connCtx, cancel := context.WithCancel(rootCtx)
 		conn := &streamingConn{
@@ -226,10 +236,10 @@ func (self *StreamingClient) Connect(rootCtx context.Context) error {
 		self.connLock.Unlock()
 		go self.sendLoop(conn)
 		go self.recvLoop(conn)
-	} else {
-		self.Log().Debug("client already connected")
+		return true, nil
 	}
-	return nil
+	self.Log().Debug("client already connected")
+	return false, nil
 }
 
 func (self *StreamingClient) handleError(conn *streamingConn, err error) {
-- 
2.43.0


From f853c74e0892fbd31b3d4bca4612cb164144ffaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 30/38] fix: closing a websocket or h2 client while it reads or
 writes does not panic

---
 http/h2_client.go | 28 +++++++++++++++++++++++-----
 http/ws_client.go | 31 ++++++++++++++++++++++++++-----
 2 files changed, 49 insertions(+), 10 deletions(-)

diff --git a/http/h2_client.go b/http/h2_client.go
index f3aad83..57e6962 100644
--- a/http/h2_client.go
+++ b/http/h2_client.go
@@ -29,7 +29,10 @@ type H2Client struct {
 }
 
 type h2Transport struct {
-	client  *H2Client
+	client *H2Client
+
+	// lock to protect the fields below
+	lock    sync.Mutex
 	resp    *http.Response
 	decoder *json.Decoder
 	writer  io.Writer
@@ -93,6 +96,8 @@ func (self *H2Client) String() string {
 
 // http2 transport methods
 func (self *h2Transport) Close() {
+	self.lock.Lock()
+	defer self.lock.Unlock()
 	if self.resp != nil {
 		self.resp.Body.Close()
 		self.resp = nil
@@ -102,7 +107,9 @@ func (self *h2Transport) Close() {
 	}
 }
 
-func (self h2Transport) Connected() bool {
+func (self *h2Transport) Connected() bool {
+	self.lock.Lock()
+	defer self.lock.Unlock()
 	return self.resp != nil
 }
 
@@ -120,6 +127,8 @@ func (self *h2Transport) Connect(rootCtx context.Context, serverUrl *url.URL, he
 	if err != nil {
 		return self.handleHttp2Error(err)
 	}
+	self.lock.Lock()
+	defer self.lock.Unlock()
 	self.writer = pipeWriter
 	self.resp = resp
 	self.decoder = json.NewDecoder(resp.Body)
@@ -148,14 +157,23 @@ func (self *h2Transport) WriteMessage(msg jlib.Message) error {
 	}
 
 	marshaled = append(marshaled, []byte("\n")...)
-	if _, err := self.writer.Write(marshaled); err != nil {
+	self.lock.Lock()
+	writer := self.writer
+	self.lock.Unlock()
+	if writer == nil {
+		return TransportClosed
+	}
+	if _, err := writer.Write(marshaled); err != nil {
 		return self.handleHttp2Error(err)
 	}
 	return nil
 }
 
 func (self *h2Transport) ReadMessage() (jlib.Message, bool, error) {
-	msg, err := jlib.DecodeMessage(self.decoder)
+	self.lock.Lock()
+	decoder := self.decoder
+	self.lock.Unlock()
+	msg, err := jlib.DecodeMessage(decoder)
 	if err != nil {
 		if errors.Is(err, io.EOF) {
 			return nil, false, TransportClosed
@@ -164,7 +182,7 @@ func (self *h2Transport) ReadMessage() (jlib.Message, bool, error) {
 		}
 		self.client.Log().Warnf(
 			"bad jsonrpc message %s %s, at pos %d",
-			reflect.TypeOf(err), err, self.decoder.InputOffset())
+			reflect.TypeOf(err), err, decoder.InputOffset())
 		return nil, false, err
 	}
 	return msg, true, nil
diff --git a/http/ws_client.go b/http/ws_client.go
index 80023e7..bd0fdca 100644
--- a/http/ws_client.go
+++ b/http/ws_client.go
@@ -12,6 +12,7 @@ import (
 	"net/http"
 	"net/url"
 	"reflect"
+	"sync"
 )
 
 type WSClient struct {
@@ -19,7 +20,9 @@ type WSClient struct {
 }
 
 type wsTransport struct {
-	ws *websocket.Conn
+	// lock to protect ws
+	lock sync.Mutex
+	ws   *websocket.Conn
 
 	client *WSClient
 }
@@ -40,14 +43,22 @@ func (self *WSClient) String() string {
 
 // websocket transport methods
 func (self *wsTransport) Close() {
+	self.lock.Lock()
+	defer self.lock.Unlock()
 	if self.ws != nil {
 		self.ws.Close()
 		self.ws = nil
 	}
 }
 
-func (self wsTransport) Connected() bool {
-	return self.ws != nil
+func (self *wsTransport) conn() *websocket.Conn {
+	self.lock.Lock()
+	defer self.lock.Unlock()
+	return self.ws
+}
+
+func (self *wsTransport) Connected() bool {
+	return self.conn() != nil
 }
 
 func (self *wsTransport) Connect(rootCtx context.Context, serverUrl *url.URL, header http.Header) error {
@@ -62,6 +73,8 @@ func (self *wsTransport) Connect(rootCtx context.Context, serverUrl *url.URL, he
 		}
 		return errors.Wrap(err, "wstransport.connect")
 	}
+	self.lock.Lock()
+	defer self.lock.Unlock()
 	self.ws = ws
 	return nil
 }
@@ -87,14 +100,22 @@ func (self *wsTransport) WriteMessage(msg jlib.Message) error {
 		return err
 	}
 
-	if err := self.ws.WriteMessage(websocket.TextMessage, marshaled); err != nil {
+	ws := self.conn()
+	if ws == nil {
+		return TransportClosed
+	}
+	if err := ws.WriteMessage(websocket.TextMessage, marshaled); err != nil {
 		return self.handleWebsocketError(err)
 	}
 	return nil
 }
 
 func (self *wsTransport) ReadMessage() (jlib.Message, bool, error) {
-	messageType, msgBytes, err := self.ws.ReadMessage()
+	ws := self.conn()
+	if ws == nil {
+		return nil, false, TransportClosed
+	}
+	messageType, msgBytes, err := ws.ReadMessage()
 	if err != nil {
 		return nil, false, self.handleWebsocketError(err)
 	}
-- 
2.43.0


From 1769dc32a5bd74d39cb0d0fcf86100a0bc0662f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 31/38] fix: a websocket client's TLS settings stay its own

---
 http/ws_client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/http/ws_client.go b/http/ws_client.go
index bd0fdca..c20c2bc 100644
--- a/http/ws_client.go
+++ b/http/ws_client.go
@@ -62,7 +62,8 @@ func (self *wsTransport) Connected() bool {
 }
 
 func (self *wsTransport) Connect(rootCtx context.Context, serverUrl *url.URL, header http.Header) error {
-	dailer := websocket.DefaultDialer
+	// copy it, the default dialer is shared by all clients
+	dailer := *websocket.DefaultDialer
 	dailer.TLSClientConfig = self.client.ClientTLSConfig()
 	ws, _, err := dailer.Dial(serverUrl.String(), header)
 	if err != nil {
-- 
2.43.0


From 85e84f2aeef9189602079aed54c69565ba3b8640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 32/38] fix: an answer that cannot be encoded does not silence
 a streaming session

---
 http/h2_server.go    |  4 ++--
 http/server_utils.go | 14 ++++++++++++++
 http/ws_server.go    |  4 ++--
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/http/h2_server.go b/http/h2_server.go
index d85150f..8f428d6 100644
--- a/http/h2_server.go
+++ b/http/h2_server.go
@@ -193,10 +193,10 @@ func (self *H2Session) sendLoop() {
 			if self.decoder == nil {
 				return
 			}
-			marshaled, err := jlib.MessageBytes(msg)
+			marshaled, err := encodeSessionMessage(msg)
 			if err != nil {
 				log.Warnf("marshal msg error %s", err)
-				return
+				continue
 			}
 
 			marshaled = append(marshaled, []byte("\n")...)
diff --git a/http/server_utils.go b/http/server_utils.go
index 33fb968..95b60f4 100644
--- a/http/server_utils.go
+++ b/http/server_utils.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"github.com/pkg/errors"
 	log "github.com/sirupsen/logrus"
+	"github.com/superisaac/jlib"
 	"net"
 	"net/http"
 )
@@ -69,3 +70,16 @@ func Logger(r *http.Request) *log.Entry {
 		"remoteAddr": r.RemoteAddr,
 	})
 }
+
+// encode a message to be sent by a streaming session. The peer waits
+// for the answer of its request, therefore a result that cannot be
+// encoded turns into an internal error.
+func encodeSessionMessage(msg jlib.Message) ([]byte, error) {
+	data, err := jlib.MessageBytes(msg)
+	if err != nil && msg.IsResultOrError() {
+		msg.Log().Warnf("error marshaling msg %s", err)
+		errmsg := jlib.ErrInternalError.ToMessageFromId(msg.MustId(), msg.TraceId())
+		return jlib.MessageBytes(errmsg)
+	}
+	return data, err
+}
diff --git a/http/ws_server.go b/http/ws_server.go
index e3cad4b..b524e5c 100644
--- a/http/ws_server.go
+++ b/http/ws_server.go
@@ -167,10 +167,10 @@ func (self *WSSession) sendLoop() {
 			if self.ws == nil {
 				return
 			}
-			marshaled, err := jlib.MessageBytes(msg)
+			marshaled, err := encodeSessionMessage(msg)
 			if err != nil {
 				log.Warnf("marshal msg error %s", err)
-				return
+				continue
 			}
 
 			if err := self.ws.WriteMessage(websocket.TextMessage, marshaled); err != nil {
-- 
2.43.0


From 8a4b9271e17d8f5af556a3508b0baa055383eb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:58 +0000
Subject: [PATCH 33/38] fix: websocket sessions end once, without blocking or
 crashing their handlers

---
 http/ws_server.go | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/http/ws_server.go b/http/ws_server.go
index b524e5c..673d970 100644
--- a/http/ws_server.go
+++ b/http/ws_server.go
@@ -53,9 +53,13 @@ func (self *WSHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	}
 	defer ws.Close()
 
+	// sessionCtx ends together with the session
+	sessionCtx, endSession := context.WithCancel(r.Context())
+	defer endSession()
+
 	session := &WSSession{
 		server:      self,
-		rootCtx:     r.Context(),
+		rootCtx:     sessionCtx,
 		httpRequest: r,
 		ws:          ws,
 		done:        make(chan error, 10),
@@ -63,10 +67,10 @@ func (self *WSHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		sessionId:   jlib.NewUuid(),
 	}
 	defer func() {
+		endSession()
 		self.Actor.HandleClose(r, session)
 	}()
 	session.wait()
-	session.server = nil
 }
 
 // websocket session
@@ -99,7 +103,7 @@ func (self *WSSession) recvLoop() {
 	for {
 		messageType, msgBytes, err := self.ws.ReadMessage()
 		if err != nil {
-			self.done <- errors.Wrap(err, "ws.ReadMessage()")
+			self.finish(errors.Wrap(err, "ws.ReadMessage()"))
 			return
 		}
 		if messageType != websocket.TextMessage {
@@ -119,7 +123,7 @@ func (self *WSSession) msgBytesReceived(msgBytes []byte) {
 	msg, err := jlib.ParseBytes(msgBytes)
 	if err != nil {
 		log.Warnf("bad jsonrpc message %s", msgBytes)
-		self.done <- errors.New("bad jsonrpc message")
+		self.finish(errors.New("bad jsonrpc message"))
 		return
 	}
 
@@ -132,20 +136,28 @@ func (self *WSSession) msgBytesReceived(msgBytes []byte) {
 
 	resmsg, err := self.server.Actor.Feed(req)
 	if err != nil {
-		self.done <- errors.Wrap(err, "actor.Feed")
+		self.finish(errors.Wrap(err, "actor.Feed"))
 		return
 	}
 	if resmsg != nil {
-		if resmsg.IsResultOrError() {
-			self.sendChannel <- resmsg
-		} else {
-			self.Send(resmsg)
-		}
+		self.Send(resmsg)
 	}
 }
 
+// Send enqueues a message, messages to a session that is over are dropped
 func (self *WSSession) Send(msg jlib.Message) {
-	self.sendChannel <- msg
+	select {
+	case self.sendChannel <- msg:
+	case <-self.rootCtx.Done():
+	}
+}
+
+// finish ends the session, only the first call counts
+func (self *WSSession) finish(err error) {
+	select {
+	case self.done <- err:
+	default:
+	}
 }
 
 func (self WSSession) SessionID() string {
@@ -175,6 +187,7 @@ func (self *WSSession) sendLoop() {
 
 			if err := self.ws.WriteMessage(websocket.TextMessage, marshaled); err != nil {
 				log.Warnf("write warning message %s", err)
+				self.finish(errors.Wrap(err, "ws.WriteMessage()"))
 				return
 			}
 		}
-- 
2.43.0


From 991ce6f4cd30a3da112f126a028d1ea6ca0b64f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:58 +0000
Subject: [PATCH 34/38] fix: an h2 session stops writing before its handler
 returns and does not block on a dead peer

---
 http/h2_server.go | 45 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/http/h2_server.go b/http/h2_server.go
index 8f428d6..be0fc8c 100644
--- a/http/h2_server.go
+++ b/http/h2_server.go
@@ -12,6 +12,7 @@ import (
 	"io"
 	"net/http"
 	"sync"
+	"time"
 )
 
 type H2Handler struct {
@@ -34,6 +35,7 @@ type H2Session struct {
 	rootCtx     context.Context
 	done        chan error
 	sendChannel chan jlib.Message
+	sendDone    chan struct{}
 	sessionId   string
 }
 
@@ -82,19 +84,31 @@ func (self *H2Handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	flusher.Flush()
 
 	decoder := json.NewDecoder(r.Body)
+	// sessionCtx ends together with the session
+	sessionCtx, endSession := context.WithCancel(r.Context())
+	defer endSession()
+
 	session := &H2Session{
 		server:      self,
-		rootCtx:     r.Context(),
+		rootCtx:     sessionCtx,
 		httpRequest: r,
 		writer:      w,
 		flusher:     flusher,
 		decoder:     decoder,
 		done:        make(chan error, 10),
 		sendChannel: make(chan jlib.Message, 100),
+		sendDone:    make(chan struct{}),
 		sessionId:   jlib.NewUuid(),
 	}
 	defer func() {
+		endSession()
 		r.Body.Close()
+		// the response writer must not be used once ServeHTTP returned,
+		// a peer that does not read must not delay that forever
+		if d, ok := w.(interface{ SetWriteDeadline(time.Time) error }); ok {
+			d.SetWriteDeadline(time.Now().Add(time.Second))
+		}
+		<-session.sendDone
 		self.Actor.HandleClose(r, session)
 	}()
 	session.wait()
@@ -133,7 +147,7 @@ func (self *H2Session) recvLoop() {
 			if errors.Is(err, io.EOF) {
 				break
 			} else {
-				self.done <- err
+				self.finish(err)
 				return
 			}
 		}
@@ -144,7 +158,7 @@ func (self *H2Session) recvLoop() {
 		}
 	}
 	// end of scanning
-	self.done <- nil
+	self.finish(nil)
 	return
 }
 
@@ -158,20 +172,28 @@ func (self *H2Session) msgReceived(msg jlib.Message) {
 
 	resmsg, err := self.server.Actor.Feed(req)
 	if err != nil {
-		self.done <- errors.Wrap(err, "actor.Feed")
+		self.finish(errors.Wrap(err, "actor.Feed"))
 		return
 	}
 	if resmsg != nil {
-		if resmsg.IsResultOrError() {
-			self.sendChannel <- resmsg
-		} else {
-			self.Send(resmsg)
-		}
+		self.Send(resmsg)
 	}
 }
 
+// Send enqueues a message, messages to a session that is over are dropped
 func (self *H2Session) Send(msg jlib.Message) {
-	self.sendChannel <- msg
+	select {
+	case self.sendChannel <- msg:
+	case <-self.rootCtx.Done():
+	}
+}
+
+// finish ends the session, only the first call counts
+func (self *H2Session) finish(err error) {
+	select {
+	case self.done <- err:
+	default:
+	}
 }
 
 func (self H2Session) SessionID() string {
@@ -179,6 +201,8 @@ func (self H2Session) SessionID() string {
 }
 
 func (self *H2Session) sendLoop() {
+	defer close(self.sendDone)
+
 	ctx, cancel := context.WithCancel(self.rootCtx)
 	defer cancel()
 
@@ -202,6 +226,7 @@ func (self *H2Session) sendLoop() {
 			marshaled = append(marshaled, []byte("\n")...)
 			if _, err := self.writer.Write(marshaled); err != nil {
 				log.Warnf("h2 writedata warning message %s\n", err)
+				self.finish(errors.Wrap(err, "h2 write"))
 				return
 			}
 			self.flusher.Flush()
-- 
2.43.0


From 52da084c8a08a8eac75f9cca88a51a8c35c1bcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:23 +0000
Subject: [PATCH 35/38] fix: the fifo example guards its subscribers and lists
 a copy

---
 examples/fifo/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/examples/fifo/main.go b/examples/fifo/main.go
index f45c89a..855f3ba 100644
--- a/examples/fifo/main.go
+++ b/examples/fifo/main.go
@@ -72,7 +72,8 @@ func main() {
 		defer lock.RUnlock()
 
 		log.Infof("fifo list")
-		return fifo, nil
+		// the caller encodes the list after the lock is released
+		return append([]interface{}{}, fifo...), nil
 	})
 
 	handler.Actor.OnTyped("fifo_get", func(at int) (interface{}, error) {
@@ -95,12 +96,16 @@ func main() {
 		if session == nil {
 			return nil, &jlib.RPCError{Code: -400, Message: "no session established"}
 		}
+		lock.Lock()
+		defer lock.Unlock()
 		subs[session.SessionID()] = session
 		return "ok", nil
 	})
 
 	handler.Actor.OnClose(func(r *http.Request, session jlibhttp.RPCSession) {
 		log.Infof("fifo unsub %s", session.SessionID())
+		lock.Lock()
+		defer lock.Unlock()
 		delete(subs, session.SessionID())
 	})
 
-- 
2.43.0


From 301b5c2c43dcba6c3334f303adb3a4e67da6611c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:54 +0000
Subject: [PATCH 36/38] fix: a message that cannot be encoded fails its own
 call, not the connection

---
 http/streaming_client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/http/streaming_client.go b/http/streaming_client.go
index 592a916..1fb3b38 100644
--- a/http/streaming_client.go
+++ b/http/streaming_client.go
@@ -413,6 +413,7 @@ func (self *StreamingClient) request(rootCtx context.Context, reqmsg *jlib.Reque
 
 	err = self.Send(rootCtx, sendmsg)
 	if err != nil {
+		self.pendingRequests.CompareAndDelete(sendmsg.Id, p)
 		return nil, err
 	}
 	go self.expire(sendmsg.Id, p, time.Second*10)
@@ -435,6 +436,11 @@ func isWireId(id interface{}) bool {
 }
 
 func (self *StreamingClient) Send(rootCtx context.Context, msg jlib.Message) error {
+	// a message that cannot be encoded must not end the connection
+	// the other senders use
+	if _, err := jlib.MessageBytes(msg); err != nil {
+		return errors.Wrap(err, "encode message")
+	}
 	err := self.Connect(rootCtx)
 	if err != nil {
 		return err
-- 
2.43.0


From 6829f1d0e3598f6596b32a15dc43d5863b6541ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 37/38] Revert "fix: the fifo example guards its subscribers
 and lists a copy"

This reverts commit 52da084c8a08a8eac75f9cca88a51a8c35c1bcb9.
---
 examples/fifo/main.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/examples/fifo/main.go b/examples/fifo/main.go
index 855f3ba..f45c89a 100644
--- a/examples/fifo/main.go
+++ b/examples/fifo/main.go
@@ -72,8 +72,7 @@ func main() {
 		defer lock.RUnlock()
 
 		log.Infof("fifo list")
-		// the caller encodes the list after the lock is released
-		return append([]interface{}{}, fifo...), nil
+		return fifo, nil
 	})
 
 	handler.Actor.OnTyped("fifo_get", func(at int) (interface{}, error) {
@@ -96,16 +95,12 @@ func main() {
 		if session == nil {
 			return nil, &jlib.RPCError{Code: -400, Message: "no session established"}
 		}
-		lock.Lock()
-		defer lock.Unlock()
 		subs[session.SessionID()] = session
 		return "ok", nil
 	})
 
 	handler.Actor.OnClose(func(r *http.Request, session jlibhttp.RPCSession) {
 		log.Infof("fifo unsub %s", session.SessionID())
-		lock.Lock()
-		defer lock.Unlock()
 		delete(subs, session.SessionID())
 	})
 
-- 
2.43.0


From 99d403fe67b32bb10af9893c5f7d22fbc431673b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:11 +0000
Subject: [PATCH 38/38] fix: the watching program notices a connection lost
 before it waits

---
 cli/watch/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/watch/main.go b/cli/watch/main.go
index d37a6e8..fd56b39 100644
--- a/cli/watch/main.go
+++ b/cli/watch/main.go
@@ -151,5 +151,9 @@ func (self *jsonrpcWatcher) connect() error {
 		fmt.Println(repr)
 	}
 	// wait loop
-	return self.sc.Wait()
+	if err := self.sc.Wait(); err != nil {
+		return err
+	}
+	// the connection was lost before Wait began
+	return jlibhttp.TransportClosed
 }
-- 
2.43.0

