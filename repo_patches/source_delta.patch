From c24014b77ff08dbe228b300324665bc7888295f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:32 +0000
Subject: [PATCH 1/7] fix: build recursive grammar rules once, safely for
 concurrent callers

---
 soql/parser/core/expressions1.go |  6 +++---
 soql/parser/core/expressions2.go |  8 ++++----
 soql/parser/core/helpers.go      | 15 +++++++++++++++
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/soql/parser/core/expressions1.go b/soql/parser/core/expressions1.go
index 621f00d..4c07af5 100644
--- a/soql/parser/core/expressions1.go
+++ b/soql/parser/core/expressions1.go
@@ -54,7 +54,7 @@ func selectFieldFunctionCall() ParserFn {
 					sp0(),
 					ZeroOrOnce(
 						First(
-							Indirect(selectFieldFunctionCall),
+							indirect(selectFieldFunctionCall),
 							complexSymbolName(),
 							literalValue(),
 						),
@@ -63,7 +63,7 @@ func selectFieldFunctionCall() ParserFn {
 							erase(CharClass(",")),
 							sp0(),
 							First(
-								Indirect(selectFieldFunctionCall),
+								indirect(selectFieldFunctionCall),
 								complexSymbolName(),
 								literalValue(),
 							),
@@ -130,7 +130,7 @@ func subQuery() ParserFn {
 		FlatGroup(
 			erase(CharClass("(")),
 			sp0(),
-			Indirect(subQuerySelectStatement),
+			indirect(subQuerySelectStatement),
 			sp0(),
 			erase(CharClass(")")),
 			sp0(),
diff --git a/soql/parser/core/expressions2.go b/soql/parser/core/expressions2.go
index 4a793a9..3c9647e 100644
--- a/soql/parser/core/expressions2.go
+++ b/soql/parser/core/expressions2.go
@@ -182,7 +182,7 @@ func whereConditionExpressionInnerRoot() ParserFn {
 				First(
 					FlatGroup(
 						sp0(),
-						Indirect(whereConditionExpression),
+						indirect(whereConditionExpression),
 						erase(CharClass(")")),
 						sp0(),
 					),
@@ -203,7 +203,7 @@ func whereConditionExpressionInnerRoot() ParserFn {
 			First(
 				FlatGroup(
 					sp0(),
-					Indirect(whereConditionExpression),
+					indirect(whereConditionExpression),
 				),
 				Error("Unexpected token aheads near by the 'where' clause"),
 			),
@@ -334,7 +334,7 @@ func havingConditionExpressionInnerRoot() ParserFn {
 					First(
 						FlatGroup(
 							sp0(),
-							Indirect(havingConditionExpression),
+							indirect(havingConditionExpression),
 							erase(CharClass(")")),
 							sp0(),
 						),
@@ -355,7 +355,7 @@ func havingConditionExpressionInnerRoot() ParserFn {
 				First(
 					FlatGroup(
 						sp0(),
-						Indirect(havingConditionExpression),
+						indirect(havingConditionExpression),
 					),
 					Error("Unexpected token aheads near by the 'having' clause"),
 				),
diff --git a/soql/parser/core/helpers.go b/soql/parser/core/helpers.go
index 0a55646..8a4c291 100644
--- a/soql/parser/core/helpers.go
+++ b/soql/parser/core/helpers.go
@@ -2,11 +2,26 @@ package core
 
 import (
 	"strings"
+	"sync"
 
 	. "github.com/shellyln/takenoco/base"
+	clsz "github.com/shellyln/takenoco/base/classes"
 	objparser "github.com/shellyln/takenoco/object"
 )
 
+// indirect is a goroutine-safe `Indirect`.
+// The grammar is shared by all callers, and its recursive rules are built on first use.
+func indirect(fn func() ParserFn) ParserFn {
+	var once sync.Once
+	var parser ParserFn
+	return LightBaseParser(clsz.Indirect, func(ctx ParserContext) (ParserContext, error) {
+		once.Do(func() {
+			parser = fn()
+		})
+		return parser(ctx)
+	})
+}
+
 func setStr(s string) TransformerFn {
 	return func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
 		return AstSlice{{
-- 
2.43.0


From 4b3159f711b99930f1b364646a57b230d56da915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:54 +0000
Subject: [PATCH 2/7] fix: measure the compile time with the monotonic clock

---
 soql/parser/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/soql/parser/parser.go b/soql/parser/parser.go
index 683e1b1..8a21b7b 100644
--- a/soql/parser/parser.go
+++ b/soql/parser/parser.go
@@ -22,9 +22,11 @@ func init() {
 }
 
 func Parse(s string) (*types.SoqlQuery, error) {
+	startDate := time.Now()
+
 	meta := &types.SoqlQueryMeta{
 		Version: "0.9",
-		Date:    time.Now().UTC(),
+		Date:    startDate.UTC(),
 		Source:  s,
 	}
 
@@ -56,7 +58,7 @@ func Parse(s string) (*types.SoqlQuery, error) {
 	}
 
 	endDate := time.Now()
-	q.Meta.ElapsedTime = endDate.Sub(q.Meta.Date)
+	q.Meta.ElapsedTime = endDate.Sub(startDate) // measured by the monotonic clock
 
 	return &q, nil
 }
-- 
2.43.0


From 4df733d2ca82e89cac8ce01ffb2147df6f8aa888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:57 +0000
Subject: [PATCH 3/7] fix: decode datetime literals in lists from the form they
 are encoded in

---
 soql/parser/types/marshalhelper.go | 3 +--
 soql/parser/types/types.go         | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/soql/parser/types/marshalhelper.go b/soql/parser/types/marshalhelper.go
index cda9e5e..4cb9e93 100644
--- a/soql/parser/types/marshalhelper.go
+++ b/soql/parser/types/marshalhelper.go
@@ -90,8 +90,7 @@ func unmarshalSoqlFieldInfoValue(b json.RawMessage, typ SoqlFieldInfoType) (inte
 
 func unmarshalSoqlListItemValue(b json.RawMessage, typ SoqlFieldInfoType) (interface{}, error) {
 	switch typ {
-	case SoqlFieldInfo_ParameterizedValue,
-		SoqlFieldInfo_DateTimeLiteralName:
+	case SoqlFieldInfo_ParameterizedValue:
 		{
 			var v string
 			if err := json.Unmarshal(b, &v); err != nil {
diff --git a/soql/parser/types/types.go b/soql/parser/types/types.go
index 7db61f4..ef6bdb1 100644
--- a/soql/parser/types/types.go
+++ b/soql/parser/types/types.go
@@ -111,7 +111,7 @@ type soqlFieldInfo_unmarshal struct {
 
 type SoqlListItem struct {
 	Type  SoqlFieldInfoType `json:"type,omitempty"`
-	Value interface{}       `json:"value,omitempty"` // ParameterizedValue, DateTimeLiteralName: string ; Literal_*: any
+	Value interface{}       `json:"value,omitempty"` // ParameterizedValue: string ; DateTimeLiteralName: SoqlDateTimeLiteralName ; Literal_*: any
 }
 
 type SoqlDateTimeLiteralName struct {
-- 
2.43.0


From ef027855bba9ca39067b1b7d209c68f1597f02aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:59 +0000
Subject: [PATCH 4/7] fix: reject unknown type and opcode names when decoding
 queries

---
 soql/parser/types/marshaller.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/soql/parser/types/marshaller.go b/soql/parser/types/marshaller.go
index b882105..9e2daf1 100644
--- a/soql/parser/types/marshaller.go
+++ b/soql/parser/types/marshaller.go
@@ -2,6 +2,7 @@ package types
 
 import (
 	"encoding/json"
+	"errors"
 )
 
 func (t SoqlFieldInfoType) MarshalJSON() ([]byte, error) {
@@ -10,13 +11,16 @@ func (t SoqlFieldInfoType) MarshalJSON() ([]byte, error) {
 
 func (t *SoqlFieldInfoType) UnmarshalJSON(b []byte) error {
 	s := string(b)
+	if s == "null" {
+		return nil
+	}
 	for i := SoqlFieldInfoType(0); i < SoqlFieldInfo_EndOfConstDefinitions_; i++ {
 		if `"`+i.String()+`"` == s {
 			*t = i
-			break
+			return nil
 		}
 	}
-	return nil
+	return errors.New("Unknown field info type: " + s)
 }
 
 func (t *SoqlFieldInfo) UnmarshalJSON(b []byte) error {
@@ -70,13 +74,16 @@ func (t SoqlConditionOpcode) MarshalJSON() ([]byte, error) {
 
 func (t *SoqlConditionOpcode) UnmarshalJSON(b []byte) error {
 	s := string(b)
+	if s == "null" {
+		return nil
+	}
 	for i := SoqlConditionOpcode(0); i < soqlConditionOpcode_EndOfConstDefinitions_; i++ {
 		if `"`+i.String()+`"` == s {
 			*t = i
-			break
+			return nil
 		}
 	}
-	return nil
+	return errors.New("Unknown condition opcode: " + s)
 }
 
 func (t *SoqlCondition) MarshalJSON() ([]byte, error) {
-- 
2.43.0


From 5480b1dfc501fc87d9b44e1b36db21964bd3743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:00 +0000
Subject: [PATCH 5/7] fix: reject null as the value of literals other than null
 when decoding queries

---
 soql/parser/types/marshalhelper.go | 35 ++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/soql/parser/types/marshalhelper.go b/soql/parser/types/marshalhelper.go
index 4cb9e93..f12b7c9 100644
--- a/soql/parser/types/marshalhelper.go
+++ b/soql/parser/types/marshalhelper.go
@@ -2,10 +2,42 @@ package types
 
 import (
 	"encoding/json"
+	"errors"
 	"time"
 )
 
+// checkLiteralNull makes sure that the null value appears only as the value of the null literal.
+func checkLiteralNull(b json.RawMessage, typ SoqlFieldInfoType) error {
+	isNull := len(b) == 0 || string(b) == "null"
+
+	switch typ {
+	case SoqlFieldInfo_Literal_Null:
+		if !isNull {
+			return errors.New("Unexpected value of " + typ.String() + ": " + string(b))
+		}
+	case SoqlFieldInfo_Literal_Int,
+		SoqlFieldInfo_Literal_Float,
+		SoqlFieldInfo_Literal_Bool,
+		SoqlFieldInfo_Literal_String,
+		SoqlFieldInfo_Literal_Blob,
+		SoqlFieldInfo_Literal_Date,
+		SoqlFieldInfo_Literal_DateTime,
+		SoqlFieldInfo_Literal_Time,
+		SoqlFieldInfo_Literal_DateTimeRange,
+		SoqlFieldInfo_Literal_List,
+		SoqlFieldInfo_DateTimeLiteralName:
+		if isNull {
+			return errors.New("The value is missing: " + typ.String())
+		}
+	}
+	return nil
+}
+
 func unmarshalSoqlFieldInfoValue(b json.RawMessage, typ SoqlFieldInfoType) (interface{}, error) {
+	if err := checkLiteralNull(b, typ); err != nil {
+		return nil, err
+	}
+
 	switch typ {
 	case SoqlFieldInfo_Literal_Null:
 		return nil, nil
@@ -92,6 +124,9 @@ func unmarshalSoqlListItemValue(b json.RawMessage, typ SoqlFieldInfoType) (inter
 	switch typ {
 	case SoqlFieldInfo_ParameterizedValue:
 		{
+			if string(b) == "null" {
+				return nil, errors.New("The value is missing: " + typ.String())
+			}
 			var v string
 			if err := json.Unmarshal(b, &v); err != nil {
 				return nil, err
-- 
2.43.0


From 3964416e602549a147b96aed6158729e82572843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:02 +0000
Subject: [PATCH 6/7] fix: keep the browser module running when parseSoql
 panics

---
 wasm/main.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wasm/main.go b/wasm/main.go
index d03cce4..6316a9c 100644
--- a/wasm/main.go
+++ b/wasm/main.go
@@ -21,7 +21,13 @@ func doPanic(this js.Value, args []js.Value) (retval interface{}) {
 	panic("error!")
 }
 
-func parseSoql(this js.Value, args []js.Value) interface{} {
+func parseSoql(this js.Value, args []js.Value) (retval interface{}) {
+	defer func() {
+		if r := recover(); r != nil { // e.g. an argument of a type that js.Value does not know (bigint)
+			retval = fmt.Sprintf("%v", r)
+		}
+	}()
+
 	src := ""
 	if 0 < len(args) {
 		src = args[0].String()
-- 
2.43.0


From 3909f650db5c0580b5c6b2912d3991059debdfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:04 +0000
Subject: [PATCH 7/7] fix: reject datetime literals whose UTC year is out of
 range, which could not be encoded as JSON

---
 soql/parser/core/elements.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/soql/parser/core/elements.go b/soql/parser/core/elements.go
index a557df0..15d6be9 100644
--- a/soql/parser/core/elements.go
+++ b/soql/parser/core/elements.go
@@ -1,6 +1,7 @@
 package core
 
 import (
+	"errors"
 	"strings"
 	"time"
 
@@ -294,6 +295,10 @@ func dateTimeValue() ParserFn {
 			if err != nil {
 				return nil, err
 			}
+			if year := t.UTC().Year(); year < 0 || year > 9999 {
+				// NOTE: It cannot be encoded as JSON.
+				return nil, errors.New("The datetime is out of range: " + value)
+			}
 			return AstSlice{{
 				ClassName: class.DateTime,
 				Type:      AstType_Any,
-- 
2.43.0

