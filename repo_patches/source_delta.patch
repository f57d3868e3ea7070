From 759f2939848d770d77ebc140e5291a2759cb675c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 01/31] fix: detect overflow of int8, int16 and int32 values
 that wrap around twice

---
 internal/atoi/atoi.go | 59 +++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/internal/atoi/atoi.go b/internal/atoi/atoi.go
index 8ffc771..9fa3e63 100644
--- a/internal/atoi/atoi.go
+++ b/internal/atoi/atoi.go
@@ -1,5 +1,7 @@
 package atoi
 
+import "math"
+
 // U8 assumes that s is a valid unsigned 8-bit integer.
 // Returns (0, true) if the value would overflow.
 func U8[S []byte | string](s S) (n uint8, overflow bool) {
@@ -34,10 +36,12 @@ func I8[S []byte | string](s S) (n int8, overflow bool) {
 		case 3:
 			return -(d(1)*1e1 + d(2)), false
 		case 4: // This case can overflow
-			if n = -(d(1)*1e2 + d(2)*1e1 + d(3)); n > 0 {
+			w := func(index int) int16 { return int16(s[index] - '0') }
+			v := -(w(1)*1e2 + w(2)*1e1 + w(3))
+			if v < math.MinInt8 {
 				return 0, true
 			}
-			return n, false
+			return int8(v), false
 		}
 	} else {
 		switch len(s) {
@@ -46,10 +50,12 @@ func I8[S []byte | string](s S) (n int8, overflow bool) {
 		case 2:
 			return d(0)*1e1 + d(1), false
 		case 3: // This case can overflow
-			if n = d(0)*1e2 + d(1)*1e1 + d(2); n < 0 {
+			w := func(index int) int16 { return int16(s[index] - '0') }
+			v := w(0)*1e2 + w(1)*1e1 + w(2)
+			if v > math.MaxInt8 {
 				return 0, true
 			}
-			return n, false
+			return int8(v), false
 		}
 	}
 	return 0, true // Anything above 3 digits overflows int8
@@ -97,11 +103,12 @@ func I16[S []byte | string](s S) (n int16, overflow bool) {
 		case 5:
 			return -(d(1)*1e3 + d(2)*1e2 + d(3)*1e1 + d(4)), false
 		case 6: // This case can overflow
-			n = -(d(1)*1e4 + d(2)*1e3 + d(3)*1e2 + d(4)*1e1 + d(5))
-			if n > 0 {
+			w := func(index int) int32 { return int32(s[index] - '0') }
+			v := -(w(1)*1e4 + w(2)*1e3 + w(3)*1e2 + w(4)*1e1 + w(5))
+			if v < math.MinInt16 {
 				return 0, true
 			}
-			return n, false
+			return int16(v), false
 		}
 	} else {
 		switch len(s) {
@@ -114,11 +121,12 @@ func I16[S []byte | string](s S) (n int16, overflow bool) {
 		case 4:
 			return d(0)*1e3 + d(1)*1e2 + d(2)*1e1 + d(3), false
 		case 5: // This case can overflow
-			n = d(0)*1e4 + d(1)*1e3 + d(2)*1e2 + d(3)*1e1 + d(4)
-			if n < 0 {
+			w := func(index int) int32 { return int32(s[index] - '0') }
+			v := w(0)*1e4 + w(1)*1e3 + w(2)*1e2 + w(3)*1e1 + w(4)
+			if v > math.MaxInt16 {
 				return 0, true
 			}
-			return n, false
+			return int16(v), false
 		}
 	}
 	return 0, true // Anything above 5 digits overflows int16
@@ -214,16 +222,16 @@ func I32[S []byte | string](s S) (n int32, overflow bool) {
 				d(7)*1e2 + d(8)*1e1 +
 				d(9)), false
 		case 11: // This case can overflow
-			n = d(1)*1e9 + d(2)*1e8 +
-				d(3)*1e7 + d(4)*1e6 +
-				d(5)*1e5 + d(6)*1e4 +
-				d(7)*1e3 + d(8)*1e2 +
-				d(9)*1e1 + d(10)
-			n = -n
-			if n > 0 {
+			w := func(index int) int64 { return int64(s[index] - '0') }
+			v := -(w(1)*1e9 + w(2)*1e8 +
+				w(3)*1e7 + w(4)*1e6 +
+				w(5)*1e5 + w(6)*1e4 +
+				w(7)*1e3 + w(8)*1e2 +
+				w(9)*1e1 + w(10))
+			if v < math.MinInt32 {
 				return 0, true
 			}
-			return n, false
+			return int32(v), false
 		}
 	} else {
 		switch len(s) {
@@ -258,15 +266,16 @@ func I32[S []byte | string](s S) (n int32, overflow bool) {
 				d(6)*1e2 + d(7)*1e1 +
 				d(8), false
 		case 10: // This case can overflow
-			n = d(0)*1e9 + d(1)*1e8 +
-				d(2)*1e7 + d(3)*1e6 +
-				d(4)*1e5 + d(5)*1e4 +
-				d(6)*1e3 + d(7)*1e2 +
-				d(8)*1e1 + d(9)
-			if n < 0 {
+			w := func(index int) int64 { return int64(s[index] - '0') }
+			v := w(0)*1e9 + w(1)*1e8 +
+				w(2)*1e7 + w(3)*1e6 +
+				w(4)*1e5 + w(5)*1e4 +
+				w(6)*1e3 + w(7)*1e2 +
+				w(8)*1e1 + w(9)
+			if v > math.MaxInt32 {
 				return 0, true
 			}
-			return n, false
+			return int32(v), false
 		}
 	}
 	return 0, true // Anything above 10 digits overflows int32
-- 
2.43.0


From a66fcd7738748e593afa1d66dda1d269c0daecf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:08 +0000
Subject: [PATCH 02/31] fix: accept only whole numbers as quoted numbers and
 integer map keys

---
 internal/jsonnum/jsonnum.go |   4 ++
 jscandec.go                 | 131 ++++++++++++++----------------------
 2 files changed, 54 insertions(+), 81 deletions(-)

diff --git a/internal/jsonnum/jsonnum.go b/internal/jsonnum/jsonnum.go
index aa8f823..f033ad4 100644
--- a/internal/jsonnum/jsonnum.go
+++ b/internal/jsonnum/jsonnum.go
@@ -13,6 +13,10 @@ const (
 func ReadNumber[S ~string | ~[]byte](s S) (trailing S, rc ReturnCode) {
 	var i int
 
+	if len(s) < 1 {
+		// Expected at least one digit
+		return s, ReturnCodeErr
+	}
 	if s[0] == '-' {
 		// Signed
 		s = s[1:]
diff --git a/jscandec.go b/jscandec.go
index f69ede0..86898cd 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1051,7 +1051,7 @@ func (d *Decoder[S, T]) Decode(
 
 				case ExpectTypeNumber:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					if _, rc := jsonnum.ReadNumber(tv); rc == jsonnum.ReturnCodeErr {
+					if readNumber(tv) == jsonnum.ReturnCodeErr {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1059,7 +1059,7 @@ func (d *Decoder[S, T]) Decode(
 
 				case ExpectTypeFloat32String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					rc := readNumber(tv)
 					if rc == jsonnum.ReturnCodeErr {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1072,7 +1072,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*float32)(p) = v
 				case ExpectTypeFloat64String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					rc := readNumber(tv)
 					if rc == jsonnum.ReturnCodeErr {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1085,7 +1085,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*float64)(p) = v
 				case ExpectTypeIntString:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					rc := readNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1098,7 +1098,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*int)(p) = v
 				case ExpectTypeInt8String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					rc := readNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1111,7 +1111,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*int8)(p) = v
 				case ExpectTypeInt16String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					rc := readNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1124,7 +1124,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*int16)(p) = v
 				case ExpectTypeInt32String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					rc := readNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1137,7 +1137,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*int32)(p) = v
 				case ExpectTypeInt64String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					rc := readNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1150,7 +1150,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*int64)(p) = v
 				case ExpectTypeUintString:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					rc := readNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1163,7 +1163,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*uint)(p) = v
 				case ExpectTypeUint8String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					rc := readNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1176,7 +1176,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*uint8)(p) = v
 				case ExpectTypeUint16String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					rc := readNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1189,7 +1189,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*uint16)(p) = v
 				case ExpectTypeUint32String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					rc := readNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1202,7 +1202,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*uint32)(p) = v
 				case ExpectTypeUint64String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					rc := readNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -2379,133 +2379,93 @@ func (d *Decoder[S, T]) Decode(
 						}
 
 					case ExpectTypeInt:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger {
-							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-							return true
-						}
-						v, errParse := d.parseInt(key)
+						n, errParse := strconv.ParseInt(unescape.Valid[S, string](key), 10, strconv.IntSize)
 						if errParse != nil {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
+						v := int(n)
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt8:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger {
-							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-							return true
-						}
-						v, overflow := atoi.I8(key)
-						if overflow {
+						n, errParse := strconv.ParseInt(unescape.Valid[S, string](key), 10, 8)
+						if errParse != nil {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
+						v := int8(n)
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt16:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger {
-							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-							return true
-						}
-						v, overflow := atoi.I16(key)
-						if overflow {
+						n, errParse := strconv.ParseInt(unescape.Valid[S, string](key), 10, 16)
+						if errParse != nil {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
+						v := int16(n)
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt32:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger {
-							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-							return true
-						}
-						v, overflow := atoi.I32(key)
-						if overflow {
+						n, errParse := strconv.ParseInt(unescape.Valid[S, string](key), 10, 32)
+						if errParse != nil {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
+						v := int32(n)
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt64:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger {
-							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-							return true
-						}
-						v, overflow := atoi.I64(key)
-						if overflow {
+						n, errParse := strconv.ParseInt(unescape.Valid[S, string](key), 10, 64)
+						if errParse != nil {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
+						v := int64(n)
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
-							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-							return true
-						}
-						v, errParse := d.parseUint(key)
+						n, errParse := strconv.ParseUint(unescape.Valid[S, string](key), 10, strconv.IntSize)
 						if errParse != nil {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
+						v := uint(n)
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint8:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
-							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-							return true
-						}
-						v, overflow := atoi.U8(key)
-						if overflow {
+						n, errParse := strconv.ParseUint(unescape.Valid[S, string](key), 10, 8)
+						if errParse != nil {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
+						v := uint8(n)
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint16:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
-							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-							return true
-						}
-						v, overflow := atoi.U16(key)
-						if overflow {
+						n, errParse := strconv.ParseUint(unescape.Valid[S, string](key), 10, 16)
+						if errParse != nil {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
+						v := uint16(n)
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint32:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
-							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-							return true
-						}
-						v, overflow := atoi.U32(key)
-						if overflow {
+						n, errParse := strconv.ParseUint(unescape.Valid[S, string](key), 10, 32)
+						if errParse != nil {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
+						v := uint32(n)
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint64:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
-							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-							return true
-						}
-						v, overflow := atoi.U64(key)
-						if overflow {
+						n, errParse := strconv.ParseUint(unescape.Valid[S, string](key), 10, 64)
+						if errParse != nil {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
+						v := uint64(n)
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 					}
 
@@ -2796,6 +2756,15 @@ func fieldFrameIndexByName[S []byte | string](fields []fieldStackFrame, name S)
 	return noParentFrame
 }
 
+// readNumber returns jsonnum.ReturnCodeErr if s isn't a number from start to end.
+func readNumber[S []byte | string](s S) jsonnum.ReturnCode {
+	trailing, rc := jsonnum.ReadNumber(s)
+	if len(trailing) > 0 {
+		return jsonnum.ReturnCodeErr
+	}
+	return rc
+}
+
 func decodeAny[S []byte | string](
 	str S, tokens []jscan.Token[S],
 ) (any, []jscan.Token[S], error) {
-- 
2.43.0


From cfbf60166f79e04c617efa7151f479fe210c700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 03/31] fix: unescape the values of fields with the string tag
 option before parsing them, accept a quoted null

---
 jscandec.go | 57 +++++++++++++++++++++++++----------------------------
 1 file changed, 27 insertions(+), 30 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 86898cd..4f5ac71 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1,7 +1,6 @@
 package jscandec
 
 import (
-	"bytes"
 	"encoding"
 	"encoding/json"
 	"errors"
@@ -996,6 +995,14 @@ func (d *Decoder[S, T]) Decode(
 					uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 				)
 
+				if d.stackExp[si].Type >= ExpectTypeBoolString && string(
+					unescape.Valid[S, S](s[tokens[ti].Index+1:tokens[ti].End-1]),
+				) == "null" {
+					// Like null, a quoted null leaves the value unchanged.
+					ti++
+					goto ON_VAL_END
+				}
+
 				switch d.stackExp[si].Type {
 				case ExpectTypeTextUnmarshaler:
 					u := reflect.NewAt(
@@ -1017,7 +1024,7 @@ func (d *Decoder[S, T]) Decode(
 						s[tokens[ti].Index+1 : tokens[ti].End-1],
 					)
 				case ExpectTypeBoolString:
-					switch string(s[tokens[ti].Index+1 : tokens[ti].End-1]) {
+					switch string(unescape.Valid[S, S](s[tokens[ti].Index+1 : tokens[ti].End-1])) {
 					case "true":
 						*(*bool)(p) = true
 					case "false":
@@ -1027,30 +1034,20 @@ func (d *Decoder[S, T]) Decode(
 						return true
 					}
 				case ExpectTypeStrString:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					if len(tv) < len(`\"\"`) ||
-						string(tv[0:2]) != `\"` ||
-						string(tv[len(tv)-2:]) != `\"` {
-						// Too short or not encloused by \"
+					tv := unescape.Valid[S, string](s[tokens[ti].Index+1 : tokens[ti].End-1])
+					if len(tv) < len(`""`) || tv[0] != '"' || tv[len(tv)-1] != '"' {
+						// Too short or not enclosed by "
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
-					val := tv[2 : len(tv)-2]
-					var indexReverseSolidus int
-					switch val := any(val).(type) {
-					case string:
-						indexReverseSolidus = strings.IndexByte(val, '\\')
-					case []byte:
-						indexReverseSolidus = bytes.IndexByte(val, '\\')
-					}
-					if indexReverseSolidus != -1 {
+					if !json.Valid(unsafe.Slice(unsafe.StringData(tv), len(tv))) {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
-					*(*string)(p) = string(val)
+					*(*string)(p) = unescape.Valid[string, string](tv[1 : len(tv)-1])
 
 				case ExpectTypeNumber:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescape.Valid[S, S](s[tokens[ti].Index+1 : tokens[ti].End-1])
 					if readNumber(tv) == jsonnum.ReturnCodeErr {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1058,7 +1055,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*Number)(p) = Number(tv)
 
 				case ExpectTypeFloat32String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescape.Valid[S, S](s[tokens[ti].Index+1 : tokens[ti].End-1])
 					rc := readNumber(tv)
 					if rc == jsonnum.ReturnCodeErr {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1071,7 +1068,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*float32)(p) = v
 				case ExpectTypeFloat64String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescape.Valid[S, S](s[tokens[ti].Index+1 : tokens[ti].End-1])
 					rc := readNumber(tv)
 					if rc == jsonnum.ReturnCodeErr {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1084,7 +1081,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*float64)(p) = v
 				case ExpectTypeIntString:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescape.Valid[S, S](s[tokens[ti].Index+1 : tokens[ti].End-1])
 					rc := readNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1097,7 +1094,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*int)(p) = v
 				case ExpectTypeInt8String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescape.Valid[S, S](s[tokens[ti].Index+1 : tokens[ti].End-1])
 					rc := readNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1110,7 +1107,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*int8)(p) = v
 				case ExpectTypeInt16String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescape.Valid[S, S](s[tokens[ti].Index+1 : tokens[ti].End-1])
 					rc := readNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1123,7 +1120,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*int16)(p) = v
 				case ExpectTypeInt32String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescape.Valid[S, S](s[tokens[ti].Index+1 : tokens[ti].End-1])
 					rc := readNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1136,7 +1133,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*int32)(p) = v
 				case ExpectTypeInt64String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescape.Valid[S, S](s[tokens[ti].Index+1 : tokens[ti].End-1])
 					rc := readNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1149,7 +1146,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*int64)(p) = v
 				case ExpectTypeUintString:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescape.Valid[S, S](s[tokens[ti].Index+1 : tokens[ti].End-1])
 					rc := readNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1162,7 +1159,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*uint)(p) = v
 				case ExpectTypeUint8String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescape.Valid[S, S](s[tokens[ti].Index+1 : tokens[ti].End-1])
 					rc := readNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1175,7 +1172,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*uint8)(p) = v
 				case ExpectTypeUint16String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescape.Valid[S, S](s[tokens[ti].Index+1 : tokens[ti].End-1])
 					rc := readNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1188,7 +1185,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*uint16)(p) = v
 				case ExpectTypeUint32String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescape.Valid[S, S](s[tokens[ti].Index+1 : tokens[ti].End-1])
 					rc := readNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1201,7 +1198,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*uint32)(p) = v
 				case ExpectTypeUint64String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescape.Valid[S, S](s[tokens[ti].Index+1 : tokens[ti].End-1])
 					rc := readNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-- 
2.43.0


From db320b89e6c526790bd84aaaea88e302b6789d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 04/31] fix: continue with the parent of a pointer at the end
 of the pointed-to value

---
 jscandec.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jscandec.go b/jscandec.go
index 4f5ac71..fd76d20 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2594,7 +2594,9 @@ func (d *Decoder[S, T]) Decode(
 			if siCon := d.stackExp[si].ParentFrameIndex; siCon != noParentFrame {
 				switch d.stackExp[siCon].Type {
 				case ExpectTypePtr:
-					si--
+					// The end of the pointee is also the end of the pointer.
+					si = siCon
+					goto ON_VAL_END
 				case ExpectTypeArray:
 					d.stackExp[si].Len++
 					if d.stackExp[si].Len >= d.stackExp[si].Cap {
-- 
2.43.0


From c1177d2750fabb7290d2de85cb1eb8994f6bca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 05/31] fix: decode into the existing pointee of a non-nil
 pointer

---
 jscandec.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index fd76d20..0ee6756 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2635,13 +2635,17 @@ func (d *Decoder[S, T]) Decode(
 					uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 				)
 				si++
-				if d.stackExp[si].Size == 0 {
-					*(*unsafe.Pointer)(p) = emptyStructAddr
-				} else {
-					dp := mallocgc(d.stackExp[si].Size, d.stackExp[si].Typ, true)
-					d.stackExp[si].Dest = dp
+				dp := *(*unsafe.Pointer)(p)
+				if dp == nil {
+					if d.stackExp[si].Size == 0 {
+						dp = emptyStructAddr
+					} else {
+						dp = mallocgc(d.stackExp[si].Size, d.stackExp[si].Typ, true)
+					}
 					*(*unsafe.Pointer)(p) = dp
 				}
+				d.stackExp[si].Dest = dp
+				d.stackExp[si].Offset = 0
 			}
 			continue
 
-- 
2.43.0


From 456d35604b0cf4d89910b942e1582d5fab0ecc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 06/31] fix: keep all existing slice elements when a slice has
 to grow

---
 jscandec.go | 39 ++++++---------------------------------
 1 file changed, 6 insertions(+), 33 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 0ee6756..68648a5 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -354,33 +354,6 @@ func (t ExpectType) String() string {
 	return ""
 }
 
-// isElemComposite returns false for non-composite slice item types,
-// otherwise returns true.
-func (t ExpectType) isElemComposite() bool {
-	switch t {
-	case ExpectTypePtr,
-		ExpectTypeArrayLen0, // Zero-length arrays require no memory
-		ExpectTypeEmptyStruct,
-		ExpectTypeBool,
-		ExpectTypeStr,
-		ExpectTypeFloat32,
-		ExpectTypeFloat64,
-		ExpectTypeInt,
-		ExpectTypeInt8,
-		ExpectTypeInt16,
-		ExpectTypeInt32,
-		ExpectTypeInt64,
-		ExpectTypeUint,
-		ExpectTypeUint8,
-		ExpectTypeUint16,
-		ExpectTypeUint32,
-		ExpectTypeUint64:
-		return false
-		// Types such as `ExpectTypeBoolString` will never be used for slice items.
-	}
-	return true
-}
-
 // fieldStackFrame identifies a field within a struct frame.
 type fieldStackFrame struct {
 	// FrameIndex defines the stack index of the field's value frame.
@@ -1366,13 +1339,13 @@ func (d *Decoder[S, T]) Decode(
 						sh := sliceHeader{Len: elems, Cap: elems}
 						if elementSize > 0 {
 							sh.Data = newarray(d.stackExp[si+1].Typ, elems)
-							if h.Len != 0 && d.stackExp[si+1].Type.isElemComposite() {
-								// Must copy existing data bzecause it's not guarenteed
+							if h.Cap != 0 {
+								// Must copy existing data because it's not guaranteed
 								// that the existing data will be fully overwritten.
 								typedslicecopy(
 									d.stackExp[si+1].Typ,
 									sh.Data, int(elems),
-									h.Data, int(h.Len),
+									h.Data, int(h.Cap),
 								)
 							}
 						} else {
@@ -1423,13 +1396,13 @@ func (d *Decoder[S, T]) Decode(
 							Len:  elems,
 							Cap:  elems,
 						}
-						if h.Len != 0 {
-							// Must copy existing data because it's not guarenteed
+						if h.Cap != 0 {
+							// Must copy existing data because it's not guaranteed
 							// that the existing data will be fully overwritten.
 							typedslicecopy(
 								d.stackExp[recursiveFrame].Typ,
 								sh.Data, int(elems),
-								h.Data, int(h.Len),
+								h.Data, int(h.Cap),
 							)
 						}
 						*(*sliceHeader)(p) = sh
-- 
2.43.0


From a83dcae2ad7da0f34e81148beec333b7ea43e3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 07/31] fix: leave booleans, numbers and strings unchanged when
 decoding null

---
 jscandec.go | 131 ++++++++++++++++++++++------------------------------
 1 file changed, 56 insertions(+), 75 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 68648a5..6307a2f 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1215,36 +1215,6 @@ func (d *Decoder[S, T]) Decode(
 					// Skip
 				case ExpectTypePtr, ExpectTypePtrRecur:
 					*(*unsafe.Pointer)(p) = nil
-				case ExpectTypeBool:
-					*(*bool)(p) = zeroBool
-				case ExpectTypeStr:
-					*(*string)(p) = zeroStr
-				case ExpectTypeNumber:
-					*(*Number)(p) = ""
-				case ExpectTypeFloat32:
-					*(*float32)(p) = zeroFloat32
-				case ExpectTypeFloat64:
-					*(*float64)(p) = zeroFloat64
-				case ExpectTypeInt:
-					*(*int)(p) = zeroInt
-				case ExpectTypeInt8:
-					*(*int8)(p) = zeroInt8
-				case ExpectTypeInt16:
-					*(*int16)(p) = zeroInt16
-				case ExpectTypeInt32:
-					*(*int32)(p) = zeroInt32
-				case ExpectTypeInt64:
-					*(*int64)(p) = zeroInt64
-				case ExpectTypeUint:
-					*(*uint)(p) = zeroUint
-				case ExpectTypeUint8:
-					*(*uint8)(p) = zeroUint8
-				case ExpectTypeUint16:
-					*(*uint16)(p) = zeroUint16
-				case ExpectTypeUint32:
-					*(*uint32)(p) = zeroUint32
-				case ExpectTypeUint64:
-					*(*uint64)(p) = zeroUint64
 				case ExpectTypeSliceBool:
 					*(*[]bool)(p) = nil
 				case ExpectTypeSliceString:
@@ -1452,7 +1422,9 @@ func (d *Decoder[S, T]) Decode(
 
 					sl := *(*[]bool)(p)
 					if cap(sl) < elems {
-						sl = make([]bool, elems)
+						grown := make([]bool, elems)
+						copy(grown, sl[:cap(sl)])
+						sl = grown
 					} else {
 						sl = sl[:elems]
 					}
@@ -1461,7 +1433,7 @@ func (d *Decoder[S, T]) Decode(
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = false
+							// Leave the element unchanged
 						case jscan.TokenTypeTrue:
 							sl[i] = true
 						case jscan.TokenTypeFalse:
@@ -1489,7 +1461,9 @@ func (d *Decoder[S, T]) Decode(
 
 					sl := *(*[]string)(p)
 					if cap(sl) < elems {
-						sl = make([]string, elems)
+						grown := make([]string, elems)
+						copy(grown, sl[:cap(sl)])
+						sl = grown
 					} else {
 						sl = sl[:elems]
 					}
@@ -1498,7 +1472,7 @@ func (d *Decoder[S, T]) Decode(
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = ""
+							// Leave the element unchanged
 						case jscan.TokenTypeString:
 							sl[i] = unescape.Valid[S, string](
 								s[tokens[i].Index+1 : tokens[i].End-1],
@@ -1526,7 +1500,9 @@ func (d *Decoder[S, T]) Decode(
 
 					sl := *(*[]int)(p)
 					if cap(sl) < elems {
-						sl = make([]int, elems)
+						grown := make([]int, elems)
+						copy(grown, sl[:cap(sl)])
+						sl = grown
 					} else {
 						sl = sl[:elems]
 					}
@@ -1535,7 +1511,7 @@ func (d *Decoder[S, T]) Decode(
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// Leave the element unchanged
 						case jscan.TokenTypeInteger:
 							v, errParse := d.parseInt(s[tokens[i].Index:tokens[i].End])
 							if errParse != nil {
@@ -1566,7 +1542,9 @@ func (d *Decoder[S, T]) Decode(
 
 					sl := *(*[]int8)(p)
 					if cap(sl) < elems {
-						sl = make([]int8, elems)
+						grown := make([]int8, elems)
+						copy(grown, sl[:cap(sl)])
+						sl = grown
 					} else {
 						sl = sl[:elems]
 					}
@@ -1575,7 +1553,7 @@ func (d *Decoder[S, T]) Decode(
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// Leave the element unchanged
 						case jscan.TokenTypeInteger:
 							v, overflow := atoi.I8(s[tokens[i].Index:tokens[i].End])
 							if overflow {
@@ -1606,7 +1584,9 @@ func (d *Decoder[S, T]) Decode(
 
 					sl := *(*[]int16)(p)
 					if cap(sl) < elems {
-						sl = make([]int16, elems)
+						grown := make([]int16, elems)
+						copy(grown, sl[:cap(sl)])
+						sl = grown
 					} else {
 						sl = sl[:elems]
 					}
@@ -1615,7 +1595,7 @@ func (d *Decoder[S, T]) Decode(
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// Leave the element unchanged
 						case jscan.TokenTypeInteger:
 							v, overflow := atoi.I16(s[tokens[i].Index:tokens[i].End])
 							if overflow {
@@ -1646,7 +1626,9 @@ func (d *Decoder[S, T]) Decode(
 
 					sl := *(*[]int32)(p)
 					if cap(sl) < elems {
-						sl = make([]int32, elems)
+						grown := make([]int32, elems)
+						copy(grown, sl[:cap(sl)])
+						sl = grown
 					} else {
 						sl = sl[:elems]
 					}
@@ -1655,7 +1637,7 @@ func (d *Decoder[S, T]) Decode(
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// Leave the element unchanged
 						case jscan.TokenTypeInteger:
 							v, overflow := atoi.I32(s[tokens[i].Index:tokens[i].End])
 							if overflow {
@@ -1686,7 +1668,9 @@ func (d *Decoder[S, T]) Decode(
 
 					sl := *(*[]int64)(p)
 					if cap(sl) < elems {
-						sl = make([]int64, elems)
+						grown := make([]int64, elems)
+						copy(grown, sl[:cap(sl)])
+						sl = grown
 					} else {
 						sl = sl[:elems]
 					}
@@ -1695,7 +1679,7 @@ func (d *Decoder[S, T]) Decode(
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// Leave the element unchanged
 						case jscan.TokenTypeInteger:
 							v, overflow := atoi.I64(s[tokens[i].Index:tokens[i].End])
 							if overflow {
@@ -1726,7 +1710,9 @@ func (d *Decoder[S, T]) Decode(
 
 					sl := *(*[]uint)(p)
 					if cap(sl) < elems {
-						sl = make([]uint, elems)
+						grown := make([]uint, elems)
+						copy(grown, sl[:cap(sl)])
+						sl = grown
 					} else {
 						sl = sl[:elems]
 					}
@@ -1735,7 +1721,7 @@ func (d *Decoder[S, T]) Decode(
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// Leave the element unchanged
 						case jscan.TokenTypeInteger:
 							if s[tokens[i].Index] == '-' {
 								errIndex, err = tokens[i].Index, ErrUnexpectedValue
@@ -1770,7 +1756,9 @@ func (d *Decoder[S, T]) Decode(
 
 					sl := *(*[]uint8)(p)
 					if cap(sl) < elems {
-						sl = make([]uint8, elems)
+						grown := make([]uint8, elems)
+						copy(grown, sl[:cap(sl)])
+						sl = grown
 					} else {
 						sl = sl[:elems]
 					}
@@ -1779,7 +1767,7 @@ func (d *Decoder[S, T]) Decode(
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// Leave the element unchanged
 						case jscan.TokenTypeInteger:
 							if s[tokens[i].Index] == '-' {
 								errIndex, err = tokens[i].Index, ErrUnexpectedValue
@@ -1814,7 +1802,9 @@ func (d *Decoder[S, T]) Decode(
 
 					sl := *(*[]uint16)(p)
 					if cap(sl) < elems {
-						sl = make([]uint16, elems)
+						grown := make([]uint16, elems)
+						copy(grown, sl[:cap(sl)])
+						sl = grown
 					} else {
 						sl = sl[:elems]
 					}
@@ -1823,7 +1813,7 @@ func (d *Decoder[S, T]) Decode(
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// Leave the element unchanged
 						case jscan.TokenTypeInteger:
 							if s[tokens[i].Index] == '-' {
 								errIndex, err = tokens[i].Index, ErrUnexpectedValue
@@ -1858,7 +1848,9 @@ func (d *Decoder[S, T]) Decode(
 
 					sl := *(*[]uint32)(p)
 					if cap(sl) < elems {
-						sl = make([]uint32, elems)
+						grown := make([]uint32, elems)
+						copy(grown, sl[:cap(sl)])
+						sl = grown
 					} else {
 						sl = sl[:elems]
 					}
@@ -1867,7 +1859,7 @@ func (d *Decoder[S, T]) Decode(
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// Leave the element unchanged
 						case jscan.TokenTypeInteger:
 							if s[tokens[i].Index] == '-' {
 								errIndex, err = tokens[i].Index, ErrUnexpectedValue
@@ -1902,7 +1894,9 @@ func (d *Decoder[S, T]) Decode(
 
 					sl := *(*[]uint64)(p)
 					if cap(sl) < elems {
-						sl = make([]uint64, elems)
+						grown := make([]uint64, elems)
+						copy(grown, sl[:cap(sl)])
+						sl = grown
 					} else {
 						sl = sl[:elems]
 					}
@@ -1911,7 +1905,7 @@ func (d *Decoder[S, T]) Decode(
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// Leave the element unchanged
 						case jscan.TokenTypeInteger:
 							if s[tokens[i].Index] == '-' {
 								errIndex, err = tokens[i].Index, ErrUnexpectedValue
@@ -1946,7 +1940,9 @@ func (d *Decoder[S, T]) Decode(
 
 					sl := *(*[]float32)(p)
 					if cap(sl) < elems {
-						sl = make([]float32, elems)
+						grown := make([]float32, elems)
+						copy(grown, sl[:cap(sl)])
+						sl = grown
 					} else {
 						sl = sl[:elems]
 					}
@@ -1955,7 +1951,7 @@ func (d *Decoder[S, T]) Decode(
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// Leave the element unchanged
 						case jscan.TokenTypeNumber:
 							v, errParse := d.parseFloat32(
 								s[tokens[i].Index:tokens[i].End],
@@ -2008,7 +2004,9 @@ func (d *Decoder[S, T]) Decode(
 
 					sl := *(*[]float64)(p)
 					if cap(sl) < elems {
-						sl = make([]float64, elems)
+						grown := make([]float64, elems)
+						copy(grown, sl[:cap(sl)])
+						sl = grown
 					} else {
 						sl = sl[:elems]
 					}
@@ -2017,7 +2015,7 @@ func (d *Decoder[S, T]) Decode(
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// Leave the element unchanged
 						case jscan.TokenTypeNumber:
 							v, errParse := d.parseFloat64(
 								s[tokens[i].Index:tokens[i].End],
@@ -2664,23 +2662,6 @@ type sliceHeader struct {
 	Len, Cap uintptr
 }
 
-var (
-	zeroBool    bool
-	zeroStr     string
-	zeroInt     int
-	zeroUint    uint
-	zeroInt8    int8
-	zeroUint8   uint8
-	zeroInt16   int16
-	zeroUint16  uint16
-	zeroInt32   int32
-	zeroUint32  uint32
-	zeroInt64   int64
-	zeroUint64  uint64
-	zeroFloat32 float32
-	zeroFloat64 float64
-)
-
 // fieldFrameIndexByName returns the frame index of the field identified by name
 // or -1 if no field is found. Exact matches are prioritized over
 // case-insensitive matches.
-- 
2.43.0


From b6f93410fa20473d6e49342cc05d727ef7f315c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 08/31] fix: don't mistake the end of an unknown field's object
 for the end of the struct

---
 jscandec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jscandec.go b/jscandec.go
index 6307a2f..12ea3d6 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2295,7 +2295,7 @@ func (d *Decoder[S, T]) Decode(
 									l++
 								case jscan.TokenTypeObjectEnd:
 									l--
-									if l < 1 {
+									if l < 0 {
 										ti--
 										break SCAN_KEYVALS
 									}
-- 
2.43.0


From ca863c4b45a1735c8e741e9a84fc5307442fba14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 09/31] fix: skip objects decoded into empty structs entirely,
 reject their fields if unknown fields are disallowed

---
 jscandec.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jscandec.go b/jscandec.go
index 12ea3d6..ad77b27 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2068,7 +2068,11 @@ func (d *Decoder[S, T]) Decode(
 			case jscan.TokenTypeObject:
 				switch d.stackExp[si].Type {
 				case ExpectTypeEmptyStruct:
-					ti = tokens[ti].End // Skip object value
+					if options.DisallowUnknownFields && tokens[ti].Elements != 0 {
+						errIndex, err = tokens[ti+1].Index, ErrUnknownField
+						return true
+					}
+					ti = tokens[ti].End + 1 // Skip object value
 					goto ON_VAL_END
 				case ExpectTypeAny:
 					v, tail, errDecode := decodeAny(s, tokens[ti:])
-- 
2.43.0


From ca255a73f0acd40a7f9979bd41b130cc997f5b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 10/31] fix: restore all frames at the end of values decoded by
 recursive frames

---
 append_type_stack.go |  15 ++-
 jscandec.go          | 268 ++++++++++++++++---------------------------
 2 files changed, 114 insertions(+), 169 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index 575e0d1..d46e5d4 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -88,7 +88,7 @@ func appendTypeToStack[S []byte | string](
 			}
 			// Check for recursion
 			for i := range stack {
-				if stack[i].RType == elem {
+				if isStructFrame(stack[i], elem) {
 					// Recursion of type stack[i] detected.
 					// Link recursive frame to the recursion frame.
 					stack[i].Type = ExpectTypeStructRecur
@@ -227,7 +227,7 @@ func appendTypeToStack[S []byte | string](
 		if elem.Kind() == reflect.Struct && elem.Size() > 0 {
 			// Check for recursion
 			for i := range stack {
-				if stack[i].RType == elem {
+				if isStructFrame(stack[i], elem) {
 					// Recursion of type stack[i] detected.
 					// Link recursive frame to the recursion frame.
 					stack[i].Type = ExpectTypeStructRecur
@@ -508,7 +508,7 @@ func appendTypeToStack[S []byte | string](
 		if elem.Kind() == reflect.Struct && elem.Size() > 0 {
 			// Check for recursion
 			for i := range stack {
-				if stack[i].RType == elem {
+				if isStructFrame(stack[i], elem) {
 					// Recursion of type stack[i] detected.
 					// Link recursive frame to the recursion frame.
 					stack[i].Type = ExpectTypeStructRecur
@@ -544,6 +544,15 @@ func appendTypeToStack[S []byte | string](
 	return stack, nil
 }
 
+// isStructFrame returns true if f is the frame of struct type t.
+func isStructFrame[S []byte | string](f stackFrame[S], t reflect.Type) bool {
+	switch f.Type {
+	case ExpectTypeStruct, ExpectTypeStructRecur:
+		return f.RType == t
+	}
+	return false
+}
+
 func getTyp(t reflect.Type) *typ {
 	return (*typ)(((*emptyInterface)(unsafe.Pointer(&t))).ptr)
 }
diff --git a/jscandec.go b/jscandec.go
index ad77b27..7f7fa4f 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -365,16 +365,21 @@ type fieldStackFrame struct {
 }
 
 type recursionStackFrame struct {
-	// Dest stores the destination pointer for the recursive frame to be reset to.
-	Dest unsafe.Pointer
-
-	// Offset stores the offset for the recursive frame to be reset to.
-	Offset uintptr
+	// Reset stores the runtime state that the recursive frame and
+	// all frames following it are to be reset to.
+	Reset []frameState
 
 	// ContainerFrame stores the index of the recursive container frame.
 	ContainerFrame uint32
 }
 
+// frameState is the part of a stackFrame that changes at runtime.
+type frameState struct {
+	Dest   unsafe.Pointer
+	Offset uintptr
+	Len    int
+}
+
 type stackFrame[S []byte | string] struct {
 	// Fields is only relevant to structs.
 	// For every other type Fields is always nil.
@@ -476,8 +481,13 @@ func Unmarshal[S []byte | string, T any](s S, t *T) error {
 
 // Decoder is a reusable decoder instance.
 type Decoder[S []byte | string, T any] struct {
-	tokenizer    *jscan.Tokenizer[S]
-	stackExp     []stackFrame[S]
+	tokenizer *jscan.Tokenizer[S]
+	stackExp  []stackFrame[S]
+
+	// recursion stores the indexes of the recursive frames that are currently being
+	// decoded on behalf of a recursive container frame, innermost last.
+	recursion []uint32
+
 	parseInt     func(s S) (int, error)
 	parseUint    func(s S) (uint, error)
 	parseFloat32 func(s S) (float32, error)
@@ -671,6 +681,59 @@ type DecodeOptions struct {
 	DisableCaseInsensitiveMatching bool
 }
 
+// pushRecursion begins decoding into the recursive frame of the given container frame.
+func (d *Decoder[S, T]) pushRecursion(container uint32, dest unsafe.Pointer) uint32 {
+	si := uint32(d.stackExp[container].RecurFrame)
+	frame := &d.stackExp[si]
+	if l := len(frame.RecursionStack); l < cap(frame.RecursionStack) {
+		frame.RecursionStack = frame.RecursionStack[:l+1] // Reuse allocated Reset
+	} else {
+		frame.RecursionStack = append(frame.RecursionStack, recursionStackFrame{})
+	}
+	top := &frame.RecursionStack[len(frame.RecursionStack)-1]
+	top.ContainerFrame = container
+	top.Reset = top.Reset[:0]
+	for i := si; i < uint32(len(d.stackExp)); i++ {
+		f := &d.stackExp[i]
+		top.Reset = append(top.Reset, frameState{
+			Dest: f.Dest, Offset: f.Offset, Len: f.Len,
+		})
+		if i != si && len(f.RecursionStack) > 0 {
+			// Reset the field offset that was changed by an outer recursion.
+			f.Offset = f.RecursionStack[0].Reset[0].Offset
+		}
+	}
+	d.recursion = append(d.recursion, si)
+	frame.Dest, frame.Offset = dest, 0
+	return si
+}
+
+// popRecursion ends the innermost recursion, resets all frames to what they
+// were when it began and returns the index of its container frame.
+func (d *Decoder[S, T]) popRecursion() (container uint32) {
+	si := d.recursion[len(d.recursion)-1]
+	d.recursion = d.recursion[:len(d.recursion)-1]
+	recurStack := d.stackExp[si].RecursionStack
+	top := &recurStack[len(recurStack)-1]
+	for i := range top.Reset {
+		f := &d.stackExp[int(si)+i]
+		f.Dest, f.Offset, f.Len = top.Reset[i].Dest, top.Reset[i].Offset, top.Reset[i].Len
+		top.Reset[i].Dest = nil
+	}
+	d.stackExp[si].RecursionStack = recurStack[:len(recurStack)-1]
+	return top.ContainerFrame
+}
+
+// recursionContainer returns the type of the recursive container frame that the value
+// at frame si is decoded on behalf of, or 0 if there's none.
+func (d *Decoder[S, T]) recursionContainer(si uint32) ExpectType {
+	if l := len(d.recursion); l < 1 || d.recursion[l-1] != si {
+		return 0
+	}
+	recurStack := d.stackExp[si].RecursionStack
+	return d.stackExp[recurStack[len(recurStack)-1].ContainerFrame].Type
+}
+
 // Decode unmarshals the JSON contents of s into t.
 // When S is string the decoder will not copy string values and will instead refer
 // to the source string instead since Go strings are guaranteed to be immutable.
@@ -688,6 +751,9 @@ func (d *Decoder[S, T]) Decode(
 	s S, t *T, options *DecodeOptions,
 ) (errIndex int, err error) {
 	defer func() {
+		for len(d.recursion) > 0 {
+			d.popRecursion()
+		}
 		for i := range d.stackExp {
 			d.stackExp[i].Dest = nil
 		}
@@ -1211,8 +1277,11 @@ func (d *Decoder[S, T]) Decode(
 				case ExpectTypeSlice, ExpectTypeSliceRecur:
 					// Skip
 					*(*[]any)(p) = nil
-				case ExpectTypeStruct, ExpectTypeStructRecur:
+				case ExpectTypeStruct:
 					// Skip
+				case ExpectTypeStructRecur:
+					ti++
+					goto ON_RECUR_OBJ_END
 				case ExpectTypePtr, ExpectTypePtrRecur:
 					*(*unsafe.Pointer)(p) = nil
 				case ExpectTypeSliceBool:
@@ -1352,11 +1421,7 @@ func (d *Decoder[S, T]) Decode(
 						}
 						*(*sliceHeader)(p) = emptySlice
 						ti += 2
-						if len(d.stackExp[recursiveFrame].RecursionStack) < 1 {
-							goto ON_VAL_END
-						}
-						si = uint32(recursiveFrame)
-						continue
+						goto ON_VAL_END
 					}
 
 					var dp unsafe.Pointer
@@ -1383,18 +1448,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					ti++
 
-					// Push recursion stack
-					d.stackExp[recursiveFrame].RecursionStack = append(
-						d.stackExp[recursiveFrame].RecursionStack, recursionStackFrame{
-							Dest:           d.stackExp[recursiveFrame].Dest,
-							Offset:         d.stackExp[recursiveFrame].Offset,
-							ContainerFrame: si,
-						},
-					)
-
-					si = uint32(recursiveFrame)
-					d.stackExp[si].Dest = dp
-					d.stackExp[si].Offset = 0
+					si = d.pushRecursion(si, dp)
 
 				case ExpectTypeSliceEmptyStruct:
 					p := unsafe.Pointer(
@@ -2092,63 +2146,19 @@ func (d *Decoder[S, T]) Decode(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
 
-					siPointer := si
-					si = uint32(d.stackExp[si].RecurFrame)
-					// Push recursion stack
-					d.stackExp[si].RecursionStack = append(
-						d.stackExp[si].RecursionStack, recursionStackFrame{
-							Dest:           d.stackExp[si].Dest,
-							Offset:         d.stackExp[si].Offset,
-							ContainerFrame: siPointer,
-						},
-					)
-
-					var dp unsafe.Pointer
-					if *(*unsafe.Pointer)(p) != nil {
-						dp = *(*unsafe.Pointer)(p)
-					} else {
-						dp = mallocgc(d.stackExp[si].Size, d.stackExp[si].Typ, true)
-						*(*unsafe.Pointer)(p) = dp
-					}
-					d.stackExp[si].Dest = dp
-
-					if tokens[ti].Elements == 0 {
-						ti += 2
-						goto ON_RECUR_OBJ_END
-					}
-					// Point all fields to the struct, the offsets are already
-					// set statically during decoder init time.
-					for i := range d.stackExp[si].Fields {
-						d.stackExp[d.stackExp[si].Fields[i].FrameIndex].Dest = dp
-					}
-					ti++
-
-				case ExpectTypeMapRecur:
-					// Push recursion stack
 					recursiveFrame := d.stackExp[si].RecurFrame
-					d.stackExp[recursiveFrame].RecursionStack = append(
-						d.stackExp[recursiveFrame].RecursionStack, recursionStackFrame{
-							Dest:           d.stackExp[recursiveFrame].Dest,
-							Offset:         d.stackExp[recursiveFrame].Offset,
-							ContainerFrame: si,
-						},
-					)
-					p := unsafe.Pointer(
-						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
-					)
-					if *(*unsafe.Pointer)(p) == nil {
-						// Map not yet initialized, initialize map.
-						*(*unsafe.Pointer)(p) = makemap(
-							d.stackExp[si].Typ, tokens[ti].Elements,
+					dp := *(*unsafe.Pointer)(p)
+					if dp == nil {
+						dp = mallocgc(
+							d.stackExp[recursiveFrame].Size,
+							d.stackExp[recursiveFrame].Typ, true,
 						)
+						*(*unsafe.Pointer)(p) = dp
 					}
-					if tokens[ti].Elements == 0 {
-						ti += 2
-						goto ON_VAL_END
-					}
-					ti++
+					// The object is decoded by the recursive frame
+					si = d.pushRecursion(si, dp)
 
-				case ExpectTypeMap:
+				case ExpectTypeMap, ExpectTypeMapRecur:
 					p := unsafe.Pointer(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
@@ -2442,16 +2452,14 @@ func (d *Decoder[S, T]) Decode(
 					}
 
 					if d.stackExp[si].Type == ExpectTypeMapRecur {
-						recursiveFrame := d.stackExp[si].RecurFrame
-						si = uint32(recursiveFrame)
+						si = d.pushRecursion(si, pNewData)
 					} else {
 						// For non-recursive maps the value frame is guaranteed to
 						// be at an offset of 2 relative to the map frame index.
 						si += 2
+						d.stackExp[si].Dest = pNewData
 					}
 
-					d.stackExp[si].Dest = pNewData
-
 					// Zero struct values
 					if d.stackExp[si].Type == ExpectTypeStruct ||
 						d.stackExp[si].Type == ExpectTypeStructRecur {
@@ -2466,60 +2474,13 @@ func (d *Decoder[S, T]) Decode(
 
 			case jscan.TokenTypeObjectEnd:
 				ti++
-				switch d.stackExp[si].Type {
-				case ExpectTypeStruct:
-					goto ON_VAL_END
-				case ExpectTypeMapRecur:
-					recursiveFrame := d.stackExp[si].RecurFrame
-					recurStack := d.stackExp[recursiveFrame].RecursionStack
-					if len(recurStack) < 1 {
-						// In map of the root recursive struct
-						si = uint32(d.stackExp[si].RecurFrame)
-						goto ON_VAL_END
-					}
-
-					// Reset to parent context
-					topIndex := len(recurStack) - 1
-					resetTo := d.stackExp[recursiveFrame].RecursionStack[topIndex]
-					d.stackExp[recursiveFrame].Dest = resetTo.Dest
-					d.stackExp[recursiveFrame].Offset = resetTo.Offset
-					fields := d.stackExp[recursiveFrame].Fields
-					for i := range fields {
-						d.stackExp[fields[i].FrameIndex].Dest = resetTo.Dest
-					}
-
-					// Pop recursion stack
-					recurStack[topIndex].Dest = nil
-					d.stackExp[recursiveFrame].RecursionStack = recurStack[:topIndex]
-					si = d.stackExp[si].ParentFrameIndex
-					continue
-				}
 				goto ON_RECUR_OBJ_END
 
 			case jscan.TokenTypeArrayEnd:
 				ti++
-				if d.stackExp[si].Type == ExpectTypeStructRecur {
-					recurStack := d.stackExp[si].RecursionStack
-					if len(recurStack) < 1 {
-						// In slice of the root recursive struct
-						goto ON_VAL_END
-					}
-
-					// Reset to parent context
-					topIndex := len(recurStack) - 1
-					resetTo := d.stackExp[si].RecursionStack[topIndex]
-					d.stackExp[si].Dest = resetTo.Dest
-					d.stackExp[si].Offset = resetTo.Offset
-					fields := d.stackExp[si].Fields
-					for i := range fields {
-						d.stackExp[fields[i].FrameIndex].Dest = resetTo.Dest
-					}
-
-					// Pop recursion stack
-					recurStack[topIndex].Dest = nil
-					d.stackExp[si].RecursionStack = recurStack[:topIndex]
-					si = d.stackExp[resetTo.ContainerFrame].ParentFrameIndex
-					continue
+				if d.recursionContainer(si) == ExpectTypeSliceRecur {
+					si = d.popRecursion()
+					goto ON_VAL_END
 				}
 				si--
 				goto ON_VAL_END
@@ -2527,40 +2488,15 @@ func (d *Decoder[S, T]) Decode(
 			continue
 
 		ON_RECUR_OBJ_END:
-			if l := len(d.stackExp[si].RecursionStack); l > 0 {
-				top := d.stackExp[si].RecursionStack[l-1]
-				switch d.stackExp[top.ContainerFrame].Type {
-				case ExpectTypeSliceRecur:
-					d.stackExp[si].Offset += d.stackExp[si].Size
-				case ExpectTypePtrRecur:
-					recurStack := d.stackExp[si].RecursionStack
-					if len(recurStack) < 1 {
-						// In map of the root recursive struct
-						goto ON_VAL_END
-					}
-
-					// Reset to parent context
-					topIndex := len(recurStack) - 1
-					d.stackExp[si].Dest = top.Dest
-					d.stackExp[si].Offset = top.Offset
-					fields := d.stackExp[si].Fields
-					for i := range fields {
-						d.stackExp[fields[i].FrameIndex].Dest = top.Dest
-					}
-
-					// Pop recursion stack
-					recurStack[topIndex].Dest = nil
-					d.stackExp[si].RecursionStack = recurStack[:topIndex]
-					si = d.stackExp[top.ContainerFrame].ParentFrameIndex
-					continue
-
-				case ExpectTypeMapRecur:
-					si = top.ContainerFrame
-					// Set the top stack destination so the next key gets assigned to it.
-					// Otherwise we'll be in the destination of the previously assigned
-					// key, which will point to an empty map.
-					d.stackExp[si].Dest = top.Dest
-				}
+			switch d.recursionContainer(si) {
+			case ExpectTypeSliceRecur:
+				d.stackExp[si].Offset += d.stackExp[si].Size
+				continue
+			case ExpectTypePtrRecur:
+				si = d.popRecursion()
+				goto ON_VAL_END
+			case ExpectTypeMapRecur:
+				si = d.popRecursion()
 				continue
 			}
 			// Here we expect to fallthrough directly to ON_VAL_END!
-- 
2.43.0


From 11be2a4f81402579c4a2632f545aed38acb9f7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:13 +0000
Subject: [PATCH 11/31] fix: use the unmarshalers of slice elements, map keys
 and map values, reject unsupported map keys

---
 append_type_stack.go | 64 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 60 insertions(+), 4 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index d46e5d4..fab6b87 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -76,7 +76,12 @@ func appendTypeToStack[S []byte | string](
 
 	case reflect.Slice:
 		elem := t.Elem()
-		switch elem.Kind() {
+		elemKind := elem.Kind()
+		if implementsUnmarshaler(elem) {
+			// The elements must be decoded by their unmarshaler.
+			elemKind = reflect.Invalid
+		}
+		switch elemKind {
 		case reflect.Struct:
 			if elem.Size() < 1 {
 				return append(stack, stackFrame[S]{
@@ -244,7 +249,7 @@ func appendTypeToStack[S []byte | string](
 					{
 						newAtIndex := len(stack)
 						var err error
-						stack, err = appendTypeToStack(stack, t.Key(), options)
+						stack, err = appendMapKeyToStack(stack, t.Key())
 						if err != nil {
 							return nil, err
 						}
@@ -256,7 +261,9 @@ func appendTypeToStack[S []byte | string](
 			}
 		}
 
-		if t.Key().Kind() == reflect.String && t.Elem().Kind() == reflect.String {
+		if t.Key().Kind() == reflect.String && !implementsUnmarshaler(t.Key()) &&
+			elem.Kind() == reflect.String && !implementsUnmarshaler(elem) &&
+			elem != tpNumber {
 			return append(stack, stackFrame[S]{
 				Type:             ExpectTypeMapStringString,
 				Typ:              getTyp(t),
@@ -278,7 +285,7 @@ func appendTypeToStack[S []byte | string](
 		{
 			newAtIndex := len(stack)
 			var err error
-			if stack, err = appendTypeToStack(stack, t.Key(), options); err != nil {
+			if stack, err = appendMapKeyToStack(stack, t.Key()); err != nil {
 				return nil, err
 			}
 			// Link map key to the map frame.
@@ -544,6 +551,55 @@ func appendTypeToStack[S []byte | string](
 	return stack, nil
 }
 
+// appendMapKeyToStack appends the frame of map key type t. Same as in encoding/json,
+// map keys must implement encoding.TextUnmarshaler or be of a string or integer kind.
+func appendMapKeyToStack[S []byte | string](
+	stack []stackFrame[S], t reflect.Type,
+) ([]stackFrame[S], error) {
+	frame := stackFrame[S]{
+		Typ:              getTyp(t),
+		Size:             t.Size(),
+		ParentFrameIndex: noParentFrame,
+	}
+	switch kind := t.Kind(); {
+	case reflect.PointerTo(t).Implements(tpTextUnmarshaler):
+		frame.Type = ExpectTypeTextUnmarshaler
+		frame.RType = t
+	case kind == reflect.String:
+		frame.Type = ExpectTypeStr
+	case kind == reflect.Int:
+		frame.Type = ExpectTypeInt
+	case kind == reflect.Int8:
+		frame.Type = ExpectTypeInt8
+	case kind == reflect.Int16:
+		frame.Type = ExpectTypeInt16
+	case kind == reflect.Int32:
+		frame.Type = ExpectTypeInt32
+	case kind == reflect.Int64:
+		frame.Type = ExpectTypeInt64
+	case kind == reflect.Uint:
+		frame.Type = ExpectTypeUint
+	case kind == reflect.Uint8:
+		frame.Type = ExpectTypeUint8
+	case kind == reflect.Uint16:
+		frame.Type = ExpectTypeUint16
+	case kind == reflect.Uint32:
+		frame.Type = ExpectTypeUint32
+	case kind == reflect.Uint64:
+		frame.Type = ExpectTypeUint64
+	default:
+		return nil, fmt.Errorf("unsupported map key type: %v", t)
+	}
+	return append(stack, frame), nil
+}
+
+// implementsUnmarshaler returns true if values of type t
+// are decoded by a method of t or the pointer to t.
+func implementsUnmarshaler(t reflect.Type) bool {
+	return determineJSONUnmarshalerSupport(t) != interfaceSupportNone ||
+		determineTextUnmarshalerSupport(t) != interfaceSupportNone
+}
+
 // isStructFrame returns true if f is the frame of struct type t.
 func isStructFrame[S []byte | string](f stackFrame[S], t reflect.Type) bool {
 	switch f.Type {
-- 
2.43.0


From 6cb4eeab5bef1c74439d0ab54cb8fbf2c79a6241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 12/31] fix: add to existing maps of strings, zero all kinds of
 map values before decoding into them

---
 jscandec.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 7f7fa4f..9d56823 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2178,12 +2178,12 @@ func (d *Decoder[S, T]) Decode(
 					p := unsafe.Pointer(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
-					if tokens[ti].Elements == 0 {
-						ti += 2
-						*(*map[string]string)(p) = make(map[string]string, 0)
-						goto ON_VAL_END
+					m := *(*map[string]string)(p)
+					if m == nil {
+						// Map not yet initialized, initialize map.
+						m = make(map[string]string, tokens[ti].Elements)
+						*(*map[string]string)(p) = m
 					}
-					m := make(map[string]string, tokens[ti].Elements)
 					tiEnd := tokens[ti].End
 
 					for ti++; ti < tiEnd; ti += 2 {
@@ -2204,7 +2204,6 @@ func (d *Decoder[S, T]) Decode(
 						m[keyUnescaped] = unescape.Valid[S, string](value)
 					}
 					ti++
-					*(*map[string]string)(p) = m
 					goto ON_VAL_END
 
 				case ExpectTypeStruct:
@@ -2460,11 +2459,8 @@ func (d *Decoder[S, T]) Decode(
 						d.stackExp[si].Dest = pNewData
 					}
 
-					// Zero struct values
-					if d.stackExp[si].Type == ExpectTypeStruct ||
-						d.stackExp[si].Type == ExpectTypeStructRecur {
-						typedmemclr(typVal, pNewData)
-					}
+					// Zero the value, it may be the one of an existing key
+					typedmemclr(typVal, pNewData)
 
 				default:
 					errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-- 
2.43.0


From cdd47a1e50e9fa34880a7c8b20ae0f10c7921c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 13/31] fix: zero the array elements that the input has no
 values for

---
 jscandec.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 9d56823..bb36375 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1345,8 +1345,7 @@ func (d *Decoder[S, T]) Decode(
 					if tokens[ti].Elements < 1 {
 						ti += 2 // Skip over closing TokenArrayEnd
 						// Empty array, no need to allocate memory.
-						// Go will automatically allocate it together with its parent
-						// and zero it.
+						typedmemclr(d.stackExp[si].Typ, p)
 						goto ON_VAL_END
 					}
 					ti++
@@ -2478,6 +2477,13 @@ func (d *Decoder[S, T]) Decode(
 					si = d.popRecursion()
 					goto ON_VAL_END
 				}
+				if d.stackExp[si-1].Type == ExpectTypeArray {
+					// Zero the remaining elements
+					f := &d.stackExp[si]
+					for i := f.Len; i < f.Cap; i++ {
+						typedmemclr(f.Typ, unsafe.Add(f.Dest, uintptr(i)*f.Size))
+					}
+				}
 				si--
 				goto ON_VAL_END
 			}
-- 
2.43.0


From bec323b2d1efd40de572f1f2fa22b323d354d9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 14/31] fix: preserve the sign of a negative zero integer
 decoded into a float

---
 jscandec.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index bb36375..6ec075f 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -927,9 +927,11 @@ func (d *Decoder[S, T]) Decode(
 					*(*int64)(p) = v
 
 				case ExpectTypeFloat32:
-					if tokens[ti].End-tokens[ti].Index < len("16777216") {
+					if tokens[ti].End-tokens[ti].Index < len("16777216") &&
+						s[tokens[ti].Index] != '-' {
 						// Numbers below this length are guaranteed to be smaller 1<<24
-						// And float32(i32) is faster than calling parseFloat32
+						// And float32(i32) is faster than calling parseFloat32.
+						// Negative numbers are parsed to preserve the sign of -0.
 						i32, errParse := tokens[ti].Int32(s)
 						if errParse != nil {
 							errIndex, err = tokens[ti].Index, errParse
@@ -946,9 +948,11 @@ func (d *Decoder[S, T]) Decode(
 					}
 
 				case ExpectTypeFloat64:
-					if tokens[ti].End-tokens[ti].Index < len("9007199254740992") {
+					if tokens[ti].End-tokens[ti].Index < len("9007199254740992") &&
+						s[tokens[ti].Index] != '-' {
 						// Numbers below this length are guaranteed to be smaller 1<<53
-						// And float64(i64) is faster than calling parseFloat64
+						// And float64(i64) is faster than calling parseFloat64.
+						// Negative numbers are parsed to preserve the sign of -0.
 						i64, errParse := tokens[ti].Int64(s)
 						if errParse != nil {
 							errIndex, err = tokens[ti].Index, errParse
@@ -2015,9 +2019,11 @@ func (d *Decoder[S, T]) Decode(
 							}
 							sl[i] = v
 						case jscan.TokenTypeInteger:
-							if tokens[i].End-tokens[i].Index < len("16777216") {
+							if tokens[i].End-tokens[i].Index < len("16777216") &&
+								s[tokens[i].Index] != '-' {
 								// Numbers below this length are guaranteed to be smaller
 								// 1<<24 and float32(i32) is faster than parseFloat32.
+								// Negative numbers are parsed to preserve the sign of -0.
 								i32, errParse := tokens[i].Int32(s)
 								if errParse != nil {
 									errIndex, err = tokens[i].Index, errParse
@@ -2079,9 +2085,11 @@ func (d *Decoder[S, T]) Decode(
 							}
 							sl[i] = v
 						case jscan.TokenTypeInteger:
-							if tokens[i].End-tokens[i].Index < len("9007199254740992") {
+							if tokens[i].End-tokens[i].Index < len("9007199254740992") &&
+								s[tokens[i].Index] != '-' {
 								// Numbers below this length are guaranteed to be smaller
-								// 1<<53a and float64(i64) is faster than parseFloat64.
+								// 1<<53 and float64(i64) is faster than parseFloat64.
+								// Negative numbers are parsed to preserve the sign of -0.
 								v, errParse := tokens[i].Int64(s)
 								if errParse != nil {
 									errIndex, err = tokens[i].Index, errParse
-- 
2.43.0


From bf93426beb15e5fd805bed616f589dec8003358e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 15/31] fix: decode escaped surrogate pairs

---
 internal/unescape/unescape.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/unescape/unescape.go b/internal/unescape/unescape.go
index c967696..d09a104 100644
--- a/internal/unescape/unescape.go
+++ b/internal/unescape/unescape.go
@@ -3,6 +3,8 @@ package unescape
 import (
 	"bytes"
 	"strings"
+	"unicode/utf16"
+	"unicode/utf8"
 	"unsafe"
 )
 
@@ -46,6 +48,15 @@ func Valid[S []byte | string, O []byte | string](str S) O {
 			case r <= rune2Max:
 				buf = append(buf, t2|byte(r>>6), tx|byte(r)&maskx)
 			case r > maxRune, surrogateMin <= r && r <= surrogateMax:
+				if len(s) >= 12 && s[6] == '\\' && s[7] == 'u' {
+					r2 := lut[s[8]]<<12 + lut[s[9]]<<8 + lut[s[10]]<<4 + lut[s[11]]
+					pair := utf16.DecodeRune(rune(r), rune(r2))
+					if pair != utf8.RuneError {
+						buf = utf8.AppendRune(buf, pair)
+						s = s[6:]
+						break
+					}
+				}
 				buf = append(buf, RuneError...) // Error placeholder rune
 			default:
 				buf = append(buf, t3|byte(r>>12), tx|byte(r>>6)&maskx, tx|byte(r)&maskx)
-- 
2.43.0


From 37039b43cba57c59f5839d20dae52a4299ed4386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:07 +0000
Subject: [PATCH 16/31] fix: ignore unexported struct fields, parse field tags
 the way encoding/json does

---
 append_type_stack.go | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index fab6b87..e4f4913 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"reflect"
 	"strings"
+	"unicode"
 	"unsafe"
 )
 
@@ -323,22 +324,27 @@ func appendTypeToStack[S []byte | string](
 
 		for i := 0; i < numFields; i++ {
 			f := t.Field(i)
+			if !f.IsExported() && !f.Anonymous {
+				// Ignore this field.
+				continue
+			}
 			name := f.Name
 			optionString := false
 			if jsonTag := f.Tag.Get("json"); jsonTag != "" {
-				name = jsonTag
-				if i := strings.IndexByte(jsonTag, ','); i != -1 {
-					name = jsonTag[:i]
-					optionName := jsonTag[i+1:]
+				if jsonTag == "-" {
+					// Ignore this field.
+					continue
+				}
+				var options string
+				name, options, _ = strings.Cut(jsonTag, ",")
+				for options != "" && !optionString {
+					var optionName string
+					optionName, options, _ = strings.Cut(options, ",")
 					optionString = optionName == "string"
 				}
-				switch name {
-				case "":
-					// Either there was no tag or no name specified in it.
+				if !isValidTagName(name) {
+					// Either there was no tag or no (valid) name specified in it.
 					name = f.Name
-				case "-":
-					// Ignore this field.
-					continue
 				}
 			}
 
@@ -551,6 +557,18 @@ func appendTypeToStack[S []byte | string](
 	return stack, nil
 }
 
+// isValidTagName returns true if encoding/json would accept
+// name as the name specified in a struct field tag.
+func isValidTagName(name string) bool {
+	for _, c := range name {
+		if !strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c) &&
+			!unicode.IsLetter(c) && !unicode.IsDigit(c) {
+			return false
+		}
+	}
+	return name != ""
+}
+
 // appendMapKeyToStack appends the frame of map key type t. Same as in encoding/json,
 // map keys must implement encoding.TextUnmarshaler or be of a string or integer kind.
 func appendMapKeyToStack[S []byte | string](
-- 
2.43.0


From f19297f3d6e43b122cc239c2987bfd76791532d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 17/31] fix: match field names case-insensitively if the
 lengths of their encodings differ

---
 jscandec.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 6ec075f..3452d67 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2642,21 +2642,21 @@ func fieldFrameIndexByName[S []byte | string](fields []fieldStackFrame, name S)
 	f := fields
 	eq := strings.EqualFold
 	for ; len(f) >= 4; f = f[4:] { // Try 4 at a time if enough are left
-		if len(f[0].Name) == len(name) && eq(string(f[0].Name), string(name)) {
+		if eq(string(f[0].Name), string(name)) {
 			return f[0].FrameIndex
 		}
-		if len(f[1].Name) == len(name) && eq(string(f[1].Name), string(name)) {
+		if eq(string(f[1].Name), string(name)) {
 			return f[1].FrameIndex
 		}
-		if len(f[2].Name) == len(name) && eq(string(f[2].Name), string(name)) {
+		if eq(string(f[2].Name), string(name)) {
 			return f[2].FrameIndex
 		}
-		if len(f[3].Name) == len(name) && eq(string(f[3].Name), string(name)) {
+		if eq(string(f[3].Name), string(name)) {
 			return f[3].FrameIndex
 		}
 	}
 	for i := range f {
-		if len(f[i].Name) == len(name) && eq(string(f[i].Name), string(name)) {
+		if eq(string(f[i].Name), string(name)) {
 			return f[i].FrameIndex
 		}
 	}
-- 
2.43.0


From 6779f56f349eb7c618419f6c43595bac931915ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 18/31] fix: apply the string tag option to pointers

---
 append_type_stack.go | 35 ++++++++++++++++++++---------------
 jscandec.go          | 10 ++++++++--
 2 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index e4f4913..1303c24 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -369,35 +369,40 @@ func appendTypeToStack[S []byte | string](
 			stack[newAtIndex].ParentFrameIndex = parentIndex
 
 			if optionString {
-				switch stack[newAtIndex].Type {
+				valueIndex := newAtIndex
+				if stack[valueIndex].Type == ExpectTypePtr && f.Type.Name() == "" {
+					// The option applies to the pointee.
+					valueIndex++
+				}
+				switch stack[valueIndex].Type {
 				case ExpectTypeStr:
-					stack[newAtIndex].Type = ExpectTypeStrString
+					stack[valueIndex].Type = ExpectTypeStrString
 				case ExpectTypeBool:
-					stack[newAtIndex].Type = ExpectTypeBoolString
+					stack[valueIndex].Type = ExpectTypeBoolString
 				case ExpectTypeFloat32:
-					stack[newAtIndex].Type = ExpectTypeFloat32String
+					stack[valueIndex].Type = ExpectTypeFloat32String
 				case ExpectTypeFloat64:
-					stack[newAtIndex].Type = ExpectTypeFloat64String
+					stack[valueIndex].Type = ExpectTypeFloat64String
 				case ExpectTypeInt:
-					stack[newAtIndex].Type = ExpectTypeIntString
+					stack[valueIndex].Type = ExpectTypeIntString
 				case ExpectTypeInt8:
-					stack[newAtIndex].Type = ExpectTypeInt8String
+					stack[valueIndex].Type = ExpectTypeInt8String
 				case ExpectTypeInt16:
-					stack[newAtIndex].Type = ExpectTypeInt16String
+					stack[valueIndex].Type = ExpectTypeInt16String
 				case ExpectTypeInt32:
-					stack[newAtIndex].Type = ExpectTypeInt32String
+					stack[valueIndex].Type = ExpectTypeInt32String
 				case ExpectTypeInt64:
-					stack[newAtIndex].Type = ExpectTypeInt64String
+					stack[valueIndex].Type = ExpectTypeInt64String
 				case ExpectTypeUint:
-					stack[newAtIndex].Type = ExpectTypeUintString
+					stack[valueIndex].Type = ExpectTypeUintString
 				case ExpectTypeUint8:
-					stack[newAtIndex].Type = ExpectTypeUint8String
+					stack[valueIndex].Type = ExpectTypeUint8String
 				case ExpectTypeUint16:
-					stack[newAtIndex].Type = ExpectTypeUint16String
+					stack[valueIndex].Type = ExpectTypeUint16String
 				case ExpectTypeUint32:
-					stack[newAtIndex].Type = ExpectTypeUint32String
+					stack[valueIndex].Type = ExpectTypeUint32String
 				case ExpectTypeUint64:
-					stack[newAtIndex].Type = ExpectTypeUint64String
+					stack[valueIndex].Type = ExpectTypeUint64String
 				default:
 					// Using tag option `string` on an unsupported type
 					if options.DisallowStringTagOptOnUnsupportedTypes {
diff --git a/jscandec.go b/jscandec.go
index 3452d67..04bb2dc 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1038,10 +1038,16 @@ func (d *Decoder[S, T]) Decode(
 					uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 				)
 
-				if d.stackExp[si].Type >= ExpectTypeBoolString && string(
+				isPtr := d.stackExp[si].Type == ExpectTypePtr
+				if (d.stackExp[si].Type >= ExpectTypeBoolString ||
+					isPtr && d.stackExp[si+1].Type >= ExpectTypeBoolString) && string(
 					unescape.Valid[S, S](s[tokens[ti].Index+1:tokens[ti].End-1]),
 				) == "null" {
-					// Like null, a quoted null leaves the value unchanged.
+					// Like null, a quoted null makes pointers nil
+					// and leaves other values unchanged.
+					if isPtr {
+						*(*unsafe.Pointer)(p) = nil
+					}
 					ti++
 					goto ON_VAL_END
 				}
-- 
2.43.0


From 9c27aa0126eb439200e2ba6172032bb8ebd6aa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 19/31] fix: determine the type to decode into from T instead
 of the value it currently holds

---
 jscandec.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 04bb2dc..d2f7a55 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -463,7 +463,7 @@ func Unmarshal[S []byte | string, T any](s S, t *T) error {
 	}
 	stack := make([]stackFrame[S], 0, 4)
 	var err error
-	stack, err = appendTypeToStack(stack, reflect.TypeOf(*t), DefaultInitOptions)
+	stack, err = appendTypeToStack(stack, reflect.TypeOf(t).Elem(), DefaultInitOptions)
 	if err != nil {
 		return err
 	}
@@ -507,9 +507,9 @@ func NewDecoder[S []byte | string, T any](
 		stackExp:  make([]stackFrame[S], 0, 4),
 	}
 
-	var z T
+	var z *T
 	var err error
-	d.stackExp, err = appendTypeToStack(d.stackExp, reflect.TypeOf(z), options)
+	d.stackExp, err = appendTypeToStack(d.stackExp, reflect.TypeOf(z).Elem(), options)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From e57b1cb2243cf44f051c6eaa6bf0bf3d8e58af98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 20/31] fix: check the elements of slices of empty structs,
 make such slices nil on null

---
 append_type_stack.go |  2 +-
 jscandec.go          | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index 1303c24..e0df0df 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -84,7 +84,7 @@ func appendTypeToStack[S []byte | string](
 		}
 		switch elemKind {
 		case reflect.Struct:
-			if elem.Size() < 1 {
+			if elem.NumField() == 0 {
 				return append(stack, stackFrame[S]{
 					Type:             ExpectTypeSliceEmptyStruct,
 					Typ:              getTyp(t),
diff --git a/jscandec.go b/jscandec.go
index d2f7a55..2fe3cb9 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1294,6 +1294,8 @@ func (d *Decoder[S, T]) Decode(
 					goto ON_RECUR_OBJ_END
 				case ExpectTypePtr, ExpectTypePtrRecur:
 					*(*unsafe.Pointer)(p) = nil
+				case ExpectTypeSliceEmptyStruct:
+					*(*[]struct{})(p) = nil
 				case ExpectTypeSliceBool:
 					*(*[]bool)(p) = nil
 				case ExpectTypeSliceString:
@@ -1463,6 +1465,20 @@ func (d *Decoder[S, T]) Decode(
 					p := unsafe.Pointer(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
+					for i := ti + 1; i < tokens[ti].End; i++ {
+						switch tokens[i].Type {
+						case jscan.TokenTypeNull:
+						case jscan.TokenTypeObject:
+							if options.DisallowUnknownFields && tokens[i].Elements != 0 {
+								errIndex, err = tokens[i+1].Index, ErrUnknownField
+								return true
+							}
+							i = tokens[i].End // Skip object value
+						default:
+							errIndex, err = tokens[i].Index, ErrUnexpectedValue
+							return true
+						}
+					}
 					*(*sliceHeader)(p) = sliceHeader{
 						Data: emptyStructAddr,
 						Len:  uintptr(tokens[ti].Elements),
-- 
2.43.0


From 1d1d2ca20798bc5c4febe7c8f4533c8305517f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 21/31] fix: return an error for interfaces with methods and
 for recursive types that would make decoder initialization never end

---
 append_type_stack.go | 46 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index e0df0df..4d06096 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -19,6 +19,8 @@ func appendTypeToStack[S []byte | string](
 			Size:             unsafe.Sizeof(struct{ typ, dat uintptr }{}),
 			ParentFrameIndex: noParentFrame,
 		}), nil
+	} else if t.Kind() == reflect.Interface && t.NumMethod() != 0 {
+		return nil, fmt.Errorf("unsupported type: %v", t)
 	} else if s := determineJSONUnmarshalerSupport(t); s != interfaceSupportNone {
 		return append(stack, stackFrame[S]{
 			Type:             ExpectTypeJSONUnmarshaler,
@@ -35,13 +37,11 @@ func appendTypeToStack[S []byte | string](
 			Size:             t.Size(),
 			ParentFrameIndex: noParentFrame,
 		}), nil
+	} else if isUnsupportedRecursion(t) {
+		return nil, fmt.Errorf("unsupported recursive type: %v", t)
 	}
 	switch t.Kind() {
 	case reflect.Interface:
-		if t.NumMethod() != 0 {
-			// TODO:
-			panic("not yet supported")
-		}
 		return append(stack, stackFrame[S]{
 			Type:             ExpectTypeAny,
 			Typ:              getTyp(t),
@@ -623,6 +623,44 @@ func implementsUnmarshaler(t reflect.Type) bool {
 		determineTextUnmarshalerSupport(t) != interfaceSupportNone
 }
 
+// isUnsupportedRecursion returns true if t contains itself other than through
+// a pointer to, a slice of or a map of structs, like for example `type S []S`.
+func isUnsupportedRecursion(t reflect.Type) bool {
+	if t.Name() == "" {
+		// Only named types can contain themselves and t's
+		// elements and fields are checked separately.
+		return false
+	}
+	seen := map[reflect.Type]struct{}{}
+	var containsT func(reflect.Type) bool
+	isOrContainsT := func(in reflect.Type) bool {
+		if in == t {
+			return true
+		}
+		if _, ok := seen[in]; ok || implementsUnmarshaler(in) {
+			return false
+		}
+		seen[in] = struct{}{}
+		return containsT(in)
+	}
+	containsT = func(in reflect.Type) bool {
+		switch in.Kind() {
+		case reflect.Pointer, reflect.Slice, reflect.Map:
+			return in.Elem().Kind() != reflect.Struct && isOrContainsT(in.Elem())
+		case reflect.Array:
+			return in.Len() != 0 && isOrContainsT(in.Elem())
+		case reflect.Struct:
+			for i := 0; i < in.NumField(); i++ {
+				if isOrContainsT(in.Field(i).Type) {
+					return true
+				}
+			}
+		}
+		return false
+	}
+	return containsT(t)
+}
+
 // isStructFrame returns true if f is the frame of struct type t.
 func isStructFrame[S []byte | string](f stackFrame[S], t reflect.Type) bool {
 	switch f.Type {
-- 
2.43.0


From 851d8406175dd8a30ff8e5b46553e34e26aea563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 22/31] fix: allocate and decode into the pointee of pointers
 to types implementing an unmarshaler interface

---
 jscandec.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 2fe3cb9..7073117 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1054,9 +1054,9 @@ func (d *Decoder[S, T]) Decode(
 
 				switch d.stackExp[si].Type {
 				case ExpectTypeTextUnmarshaler:
-					u := reflect.NewAt(
+					u := unmarshalerAt(
 						d.stackExp[si].RType, p,
-					).Interface().(encoding.TextUnmarshaler)
+					).(encoding.TextUnmarshaler)
 					tb := unescape.Valid[S, []byte](
 						s[tokens[ti].Index+1 : tokens[ti].End-1],
 					)
@@ -1324,8 +1324,16 @@ func (d *Decoder[S, T]) Decode(
 					*(*[]uint32)(p) = nil
 				case ExpectTypeSliceUint64:
 					*(*[]uint64)(p) = nil
+				case ExpectTypeTextUnmarshaler:
+					switch t := d.stackExp[si].RType; t.Kind() {
+					case reflect.Pointer, reflect.Map, reflect.Slice:
+						reflect.NewAt(t, p).Elem().Set(reflect.Zero(t))
+					}
 				case ExpectTypeJSONUnmarshaler:
-					goto ON_JSON_UNMARSHALER
+					if d.stackExp[si].RType.Kind() != reflect.Pointer {
+						goto ON_JSON_UNMARSHALER
+					}
+					*(*unsafe.Pointer)(p) = nil
 				}
 				ti++
 				goto ON_VAL_END
@@ -2609,7 +2617,7 @@ func (d *Decoder[S, T]) Decode(
 					raw = s[tokens[ti].Index:tokens[ti].End]
 					ti++
 				}
-				u := reflect.NewAt(d.stackExp[si].RType, p).Interface().(json.Unmarshaler)
+				u := unmarshalerAt(d.stackExp[si].RType, p).(json.Unmarshaler)
 				if errUnmarshal := u.UnmarshalJSON([]byte(raw)); errUnmarshal != nil {
 					errIndex, err = tkIndex, errUnmarshal
 					return true
@@ -2685,6 +2693,19 @@ func fieldFrameIndexByName[S []byte | string](fields []fieldStackFrame, name S)
 	return noParentFrame
 }
 
+// unmarshalerAt returns the unmarshaler for the value of type t at p.
+// If t is a pointer then the unmarshaler is the value it points to,
+// which is allocated if the pointer is nil.
+func unmarshalerAt(t reflect.Type, p unsafe.Pointer) any {
+	v := reflect.NewAt(t, p)
+	if t.Kind() == reflect.Pointer {
+		if v = v.Elem(); v.IsNil() {
+			v.Set(reflect.New(t.Elem()))
+		}
+	}
+	return v.Interface()
+}
+
 // readNumber returns jsonnum.ReturnCodeErr if s isn't a number from start to end.
 func readNumber[S []byte | string](s S) jsonnum.ReturnCode {
 	trailing, rc := jsonnum.ReadNumber(s)
-- 
2.43.0


From b1b556b59309cf34857f47bb5c6271b5dd3c2333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 23/31] fix: decode base64-encoded strings into byte slices

---
 jscandec.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/jscandec.go b/jscandec.go
index 7073117..25946ec 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2,6 +2,7 @@ package jscandec
 
 import (
 	"encoding"
+	"encoding/base64"
 	"encoding/json"
 	"errors"
 	"math"
@@ -1072,6 +1073,16 @@ func (d *Decoder[S, T]) Decode(
 					*(*string)(p) = unescape.Valid[S, string](
 						s[tokens[ti].Index+1 : tokens[ti].End-1],
 					)
+				case ExpectTypeSliceUint8:
+					// Same as in encoding/json, byte slices are base64-encoded
+					v, errDecode := base64.StdEncoding.DecodeString(
+						unescape.Valid[S, string](s[tokens[ti].Index+1 : tokens[ti].End-1]),
+					)
+					if errDecode != nil {
+						errIndex, err = tokens[ti].Index, errDecode
+						return true
+					}
+					*(*[]uint8)(p) = v
 				case ExpectTypeBoolString:
 					switch string(unescape.Valid[S, S](s[tokens[ti].Index+1 : tokens[ti].End-1])) {
 					case "true":
-- 
2.43.0


From 7ba227b72c2c302fe4a61752495d1de71bde9bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 24/31] fix: report the index and error of the number that's
 out of range when decoding into any

---
 jscandec.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 25946ec..3f8d751 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1357,7 +1357,7 @@ func (d *Decoder[S, T]) Decode(
 					)
 					v, tail, errDecode := decodeAny(s, tokens[ti:])
 					if errDecode != nil {
-						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
+						errIndex, err = tail[0].Index, errDecode
 						return true
 					}
 					*(*any)(p) = v
@@ -2179,7 +2179,7 @@ func (d *Decoder[S, T]) Decode(
 				case ExpectTypeAny:
 					v, tail, errDecode := decodeAny(s, tokens[ti:])
 					if errDecode != nil {
-						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
+						errIndex, err = tail[0].Index, errDecode
 						return true
 					}
 					p := unsafe.Pointer(
@@ -2726,6 +2726,8 @@ func readNumber[S []byte | string](s S) jsonnum.ReturnCode {
 	return rc
 }
 
+// decodeAny decodes the value at the beginning of tokens and returns it together
+// with the tokens following it, or the tokens beginning with the one that caused err.
 func decodeAny[S []byte | string](
 	str S, tokens []jscan.Token[S],
 ) (any, []jscan.Token[S], error) {
@@ -2735,7 +2737,7 @@ func decodeAny[S []byte | string](
 	case jscan.TokenTypeNumber, jscan.TokenTypeInteger:
 		f64, err := tokens[0].Float64(str)
 		if err != nil {
-			return nil, nil, err
+			return nil, tokens, err
 		}
 		return f64, tokens[1:], nil
 	case jscan.TokenTypeTrue:
@@ -2752,7 +2754,7 @@ func decodeAny[S []byte | string](
 			var v any
 			var err error
 			if v, tokens, err = decodeAny(str, tokens); err != nil {
-				return nil, nil, err
+				return nil, tokens, err
 			}
 			l = append(l, v)
 		}
@@ -2767,7 +2769,7 @@ func decodeAny[S []byte | string](
 			var v any
 			var err error
 			if v, tokens, err = decodeAny(str, tokens[1:]); err != nil {
-				return nil, nil, err
+				return nil, tokens, err
 			}
 			m[unescape.Valid[S, string](key)] = v
 		}
-- 
2.43.0


From 7d5da59205485c8babd2d8441954ed19c0469cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:44 +0000
Subject: [PATCH 25/31] fix: copy slice elements free of pointers without write
 barriers

---
 jscandec.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 3f8d751..58a2755 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1413,8 +1413,7 @@ func (d *Decoder[S, T]) Decode(
 								// that the existing data will be fully overwritten.
 								typedslicecopy(
 									d.stackExp[si+1].Typ,
-									sh.Data, int(elems),
-									h.Data, int(h.Cap),
+									sh, sliceHeader{Data: h.Data, Len: h.Cap, Cap: h.Cap},
 								)
 							}
 						} else {
@@ -1466,8 +1465,7 @@ func (d *Decoder[S, T]) Decode(
 							// that the existing data will be fully overwritten.
 							typedslicecopy(
 								d.stackExp[recursiveFrame].Typ,
-								sh.Data, int(elems),
-								h.Data, int(h.Cap),
+								sh, sliceHeader{Data: h.Data, Len: h.Cap, Cap: h.Cap},
 							)
 						}
 						*(*sliceHeader)(p) = sh
@@ -2791,11 +2789,11 @@ func newarray(typ *typ, n uintptr) unsafe.Pointer
 //go:linkname mallocgc runtime.mallocgc
 func mallocgc(size uintptr, typ *typ, needzero bool) unsafe.Pointer
 
-//go:linkname typedslicecopy runtime.typedslicecopy
-//go:nosplit
-func typedslicecopy(
-	elemTyp *typ, dstPtr unsafe.Pointer, dstLen int, srcPtr unsafe.Pointer, srcLen int,
-) int
+// typedslicecopy unlike runtime.typedslicecopy supports pointer-free elements.
+//
+//go:linkname typedslicecopy reflect.typedslicecopy
+//go:noescape
+func typedslicecopy(elemTyp *typ, dst, src sliceHeader) int
 
 //go:linkname typedmemclr runtime.typedmemclr
 //go:noescape
-- 
2.43.0


From 34eeadcddb8fd61da85efe4f86d12d627c4ed9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:43 +0000
Subject: [PATCH 26/31] fix: decode base64-encoded strings into slices of bytes
 that implement an unmarshaler

---
 jscandec.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/jscandec.go b/jscandec.go
index 58a2755..875c4f2 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1073,7 +1073,15 @@ func (d *Decoder[S, T]) Decode(
 					*(*string)(p) = unescape.Valid[S, string](
 						s[tokens[ti].Index+1 : tokens[ti].End-1],
 					)
-				case ExpectTypeSliceUint8:
+				case ExpectTypeSliceUint8, ExpectTypeSlice:
+					if d.stackExp[si].Type == ExpectTypeSlice {
+						// The elements may be bytes implementing an unmarshaler
+						t := d.stackExp[si+1].RType
+						if t == nil || t.Kind() != reflect.Uint8 {
+							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
+							return true
+						}
+					}
 					// Same as in encoding/json, byte slices are base64-encoded
 					v, errDecode := base64.StdEncoding.DecodeString(
 						unescape.Valid[S, string](s[tokens[ti].Index+1 : tokens[ti].End-1]),
-- 
2.43.0


From 41dc6a19da5a23d2d9d937defa9031bc955c4333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:13 +0000
Subject: [PATCH 27/31] fix: don't reject types that contain themselves only in
 ignored fields

---
 append_type_stack.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index 4d06096..83dd65d 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -324,17 +324,12 @@ func appendTypeToStack[S []byte | string](
 
 		for i := 0; i < numFields; i++ {
 			f := t.Field(i)
-			if !f.IsExported() && !f.Anonymous {
-				// Ignore this field.
+			if isIgnoredField(f) {
 				continue
 			}
 			name := f.Name
 			optionString := false
 			if jsonTag := f.Tag.Get("json"); jsonTag != "" {
-				if jsonTag == "-" {
-					// Ignore this field.
-					continue
-				}
 				var options string
 				name, options, _ = strings.Cut(jsonTag, ",")
 				for options != "" && !optionString {
@@ -651,7 +646,8 @@ func isUnsupportedRecursion(t reflect.Type) bool {
 			return in.Len() != 0 && isOrContainsT(in.Elem())
 		case reflect.Struct:
 			for i := 0; i < in.NumField(); i++ {
-				if isOrContainsT(in.Field(i).Type) {
+				f := in.Field(i)
+				if !isIgnoredField(f) && isOrContainsT(f.Type) {
 					return true
 				}
 			}
@@ -661,6 +657,11 @@ func isUnsupportedRecursion(t reflect.Type) bool {
 	return containsT(t)
 }
 
+// isIgnoredField returns true if struct field f is never decoded into.
+func isIgnoredField(f reflect.StructField) bool {
+	return !f.IsExported() && !f.Anonymous || f.Tag.Get("json") == "-"
+}
+
 // isStructFrame returns true if f is the frame of struct type t.
 func isStructFrame[S []byte | string](f stackFrame[S], t reflect.Type) bool {
 	switch f.Type {
-- 
2.43.0


From 6c6dddda2b8944211ed3b1d67fec102a2d6f4af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:41 +0000
Subject: [PATCH 28/31] fix: ignore struct fields hidden by other fields of the
 same name

---
 append_type_stack.go | 49 ++++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index 83dd65d..1d3c2ff 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -327,20 +327,16 @@ func appendTypeToStack[S []byte | string](
 			if isIgnoredField(f) {
 				continue
 			}
-			name := f.Name
+			name, tagged := fieldName(f)
+			if isHiddenField(t, i, name, tagged) {
+				continue
+			}
 			optionString := false
-			if jsonTag := f.Tag.Get("json"); jsonTag != "" {
-				var options string
-				name, options, _ = strings.Cut(jsonTag, ",")
-				for options != "" && !optionString {
-					var optionName string
-					optionName, options, _ = strings.Cut(options, ",")
-					optionString = optionName == "string"
-				}
-				if !isValidTagName(name) {
-					// Either there was no tag or no (valid) name specified in it.
-					name = f.Name
-				}
+			_, tagOptions, _ := strings.Cut(f.Tag.Get("json"), ",")
+			for tagOptions != "" && !optionString {
+				var optionName string
+				optionName, tagOptions, _ = strings.Cut(tagOptions, ",")
+				optionString = optionName == "string"
 			}
 
 			newAtIndex := uint32(len(stack))
@@ -657,6 +653,33 @@ func isUnsupportedRecursion(t reflect.Type) bool {
 	return containsT(t)
 }
 
+// fieldName returns the name of struct field f and whether the tag specifies it.
+func fieldName(f reflect.StructField) (name string, tagged bool) {
+	name, _, _ = strings.Cut(f.Tag.Get("json"), ",")
+	if !isValidTagName(name) {
+		// Either there was no tag or no (valid) name specified in it.
+		return f.Name, false
+	}
+	return name, true
+}
+
+// isHiddenField returns true if another field of struct type t has the same name as
+// field i and field i isn't the only one among them with the name specified in the tag,
+// in which case, same as in encoding/json, the field is never decoded into.
+func isHiddenField(t reflect.Type, i int, name string, tagged bool) bool {
+	for j := 0; j < t.NumField(); j++ {
+		f := t.Field(j)
+		if j == i || isIgnoredField(f) {
+			continue
+		}
+		if otherName, otherTagged := fieldName(f); otherName == name &&
+			(otherTagged || !tagged) {
+			return true
+		}
+	}
+	return false
+}
+
 // isIgnoredField returns true if struct field f is never decoded into.
 func isIgnoredField(f reflect.StructField) bool {
 	return !f.IsExported() && !f.Anonymous || f.Tag.Get("json") == "-"
-- 
2.43.0


From 27ded444511ba268ec694c44217954242b289539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:25 +0000
Subject: [PATCH 29/31] fix: leave the destination untouched if the value is
 followed by other data

---
 jscandec.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/jscandec.go b/jscandec.go
index 875c4f2..46c1274 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -768,6 +768,11 @@ func (d *Decoder[S, T]) Decode(
 	d.stackExp[0].Dest = unsafe.Pointer(t)
 
 	errTok := d.tokenizer.Tokenize(s, func(tokens []jscan.Token[S]) (exit bool) {
+		if isFollowedByData(s, tokens) {
+			// The tokenizer will return an error, don't decode malformed input.
+			return false
+		}
+
 		// ti stands for the token index and points at the current token
 		for ti := 0; ti < len(tokens); {
 			switch tokens[ti].Type {
@@ -2654,6 +2659,25 @@ func (d *Decoder[S, T]) Decode(
 	return -1, nil
 }
 
+// isFollowedByData returns true if the value in s that's
+// represented by tokens is followed by anything but whitespace.
+func isFollowedByData[S []byte | string](s S, tokens []jscan.Token[S]) bool {
+	last := tokens[len(tokens)-1]
+	end := last.End
+	switch last.Type {
+	case jscan.TokenTypeObjectEnd, jscan.TokenTypeArrayEnd:
+		end = last.Index + 1
+	}
+	for ; end < len(s); end++ {
+		switch s[end] {
+		case ' ', '\t', '\r', '\n':
+		default:
+			return true
+		}
+	}
+	return false
+}
+
 type sliceHeader struct {
 	Data     unsafe.Pointer
 	Len, Cap uintptr
-- 
2.43.0


From 817f4273f99a7261baba6a0473e5b265558efe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:42 +0000
Subject: [PATCH 30/31] fix: decode encoding/json.Number like Number instead of
 like string

---
 append_type_stack.go |  6 +++---
 jscandec.go          | 10 ++++++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index 1d3c2ff..99b8122 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -116,7 +116,7 @@ func appendTypeToStack[S []byte | string](
 				ParentFrameIndex: noParentFrame,
 			}), nil
 		case reflect.String:
-			if elem == tpNumber {
+			if isNumber(elem) {
 				break
 			}
 			return append(stack, stackFrame[S]{
@@ -264,7 +264,7 @@ func appendTypeToStack[S []byte | string](
 
 		if t.Key().Kind() == reflect.String && !implementsUnmarshaler(t.Key()) &&
 			elem.Kind() == reflect.String && !implementsUnmarshaler(elem) &&
-			elem != tpNumber {
+			!isNumber(elem) {
 			return append(stack, stackFrame[S]{
 				Type:             ExpectTypeMapStringString,
 				Typ:              getTyp(t),
@@ -411,7 +411,7 @@ func appendTypeToStack[S []byte | string](
 			ParentFrameIndex: noParentFrame,
 		})
 	case reflect.String:
-		if t == tpNumber {
+		if isNumber(t) {
 			stack = append(stack, stackFrame[S]{
 				Type:             ExpectTypeNumber,
 				Typ:              getTyp(t),
diff --git a/jscandec.go b/jscandec.go
index 46c1274..1aef80c 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -44,14 +44,20 @@ func (n Number) Int64() (int64, error) {
 	return strconv.ParseInt(string(n), 10, 64)
 }
 
-var tpNumber = reflect.TypeOf(Number(""))
+var (
+	tpNumber     = reflect.TypeOf(Number(""))
+	tpJSONNumber = reflect.TypeOf(json.Number(""))
+)
+
+// isNumber returns true if t is Number or encoding/json.Number.
+func isNumber(t reflect.Type) bool { return t == tpNumber || t == tpJSONNumber }
 
 type ExpectType int8
 
 const (
 	_ ExpectType = iota
 
-	// ExpectTypeNumber is the type `jscandec.Number`
+	// ExpectTypeNumber is the type `jscandec.Number` or `json.Number`
 	ExpectTypeNumber
 
 	// ExpectTypeJSONUnmarshaler is any type that implements
-- 
2.43.0


From 98c420987efb9f1c6a90d63910d584218aa6a27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:41 +0000
Subject: [PATCH 31/31] fix: don't exhaust the stack on deeply nested documents
 for any

---
 jscandec.go | 91 ++++++++++++++++++++++++++++++-----------------------
 1 file changed, 52 insertions(+), 39 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 1aef80c..b7701fb 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2767,51 +2767,64 @@ func readNumber[S []byte | string](s S) jsonnum.ReturnCode {
 func decodeAny[S []byte | string](
 	str S, tokens []jscan.Token[S],
 ) (any, []jscan.Token[S], error) {
-	switch tokens[0].Type {
-	case jscan.TokenTypeNull:
-		return nil, tokens[1:], nil
-	case jscan.TokenTypeNumber, jscan.TokenTypeInteger:
-		f64, err := tokens[0].Float64(str)
-		if err != nil {
-			return nil, tokens, err
-		}
-		return f64, tokens[1:], nil
-	case jscan.TokenTypeTrue:
-		return true, tokens[1:], nil
-	case jscan.TokenTypeFalse:
-		return false, tokens[1:], nil
-	case jscan.TokenTypeString:
-		return unescape.Valid[S, string](
-			str[tokens[0].Index+1 : tokens[0].End-1],
-		), tokens[1:], nil
-	case jscan.TokenTypeArray:
-		l := make([]any, 0, tokens[0].Elements)
-		for tokens = tokens[1:]; tokens[0].Type != jscan.TokenTypeArrayEnd; {
-			var v any
-			var err error
-			if v, tokens, err = decodeAny(str, tokens); err != nil {
+	// container is an array or object that isn't decoded completely yet.
+	type container struct {
+		object map[string]any
+		array  []any
+		key    S // Key of the current object member
+	}
+	// Recursive calls could exhaust the goroutine stack, which is fatal.
+	containers := make([]container, 0, 8) // Innermost last
+	for {
+		var v any
+		switch tokens[0].Type {
+		case jscan.TokenTypeNull:
+		case jscan.TokenTypeNumber, jscan.TokenTypeInteger:
+			f64, err := tokens[0].Float64(str)
+			if err != nil {
 				return nil, tokens, err
 			}
-			l = append(l, v)
+			v = f64
+		case jscan.TokenTypeTrue:
+			v = true
+		case jscan.TokenTypeFalse:
+			v = false
+		case jscan.TokenTypeString:
+			v = unescape.Valid[S, string](str[tokens[0].Index+1 : tokens[0].End-1])
+		case jscan.TokenTypeKey:
+			top := &containers[len(containers)-1]
+			top.key = str[tokens[0].Index+1 : tokens[0].End-1]
+			tokens = tokens[1:]
+			continue
+		case jscan.TokenTypeArray:
+			containers = append(containers, container{
+				array: make([]any, 0, tokens[0].Elements),
+			})
+			tokens = tokens[1:]
+			continue
+		case jscan.TokenTypeObject:
+			containers = append(containers, container{
+				object: make(map[string]any, tokens[0].Elements),
+			})
+			tokens = tokens[1:]
+			continue
+		case jscan.TokenTypeArrayEnd:
+			v = containers[len(containers)-1].array
+			containers = containers[:len(containers)-1]
+		case jscan.TokenTypeObjectEnd:
+			v = containers[len(containers)-1].object
+			containers = containers[:len(containers)-1]
 		}
-		return l, tokens[1:], nil
-	case jscan.TokenTypeObject:
-		if tokens[0].Elements == 0 {
-			return map[string]any{}, tokens[2:], nil
+		tokens = tokens[1:]
+		if len(containers) < 1 {
+			return v, tokens, nil
 		}
-		m := make(map[string]any, tokens[0].Elements)
-		for tokens = tokens[1:]; tokens[0].Type != jscan.TokenTypeObjectEnd; {
-			key := str[tokens[0].Index+1 : tokens[0].End-1]
-			var v any
-			var err error
-			if v, tokens, err = decodeAny(str, tokens[1:]); err != nil {
-				return nil, tokens, err
-			}
-			m[unescape.Valid[S, string](key)] = v
+		if top := &containers[len(containers)-1]; top.object != nil {
+			top.object[unescape.Valid[S, string](top.key)] = v
+		} else {
+			top.array = append(top.array, v)
 		}
-		return m, tokens[1:], nil
 	}
-	panic("unreachable")
 }
 
 // emptyStructAddr the address to an empty slice remains the same
-- 
2.43.0

