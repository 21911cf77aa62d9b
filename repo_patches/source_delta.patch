From 930bf2faf143428f63e4b7acb3126d828f718e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:31 +0000
Subject: [PATCH 01/28] fix: remainder by zero is an error, not a host panic

---
 prim_math.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prim_math.go b/prim_math.go
index 9438e10..5fa6f4d 100644
--- a/prim_math.go
+++ b/prim_math.go
@@ -295,6 +295,11 @@ func RemainderImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
+	if IntegerValue(divisor) == 0 {
+		err = ProcessError("%/modulo: Divide by zero.", env)
+		return
+	}
+
 	val := IntegerValue(dividend) % IntegerValue(divisor)
 	return IntegerWithValue(val), nil
 }
-- 
2.43.0


From 9906d2e5cede8342f2fb16730e339c8f64ad65a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:31 +0000
Subject: [PATCH 02/28] fix: arithmetic rejects non-numbers after the first
 float

---
 prim_math.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prim_math.go b/prim_math.go
index 5fa6f4d..60427d7 100644
--- a/prim_math.go
+++ b/prim_math.go
@@ -168,10 +168,10 @@ func anyFloats(args *Data, env *SymbolTableFrame) (result bool, err error) {
 			return
 		}
 		if FloatP(Car(c)) {
-			return true, nil
+			result = true
 		}
 	}
-	return false, nil
+	return
 }
 
 func AddImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
-- 
2.43.0


From 17b2ca880aeaf0ee4e1b8294160fecbdb4262bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:31 +0000
Subject: [PATCH 03/28] fix: the sign of an integer is not computed through
 float32

---
 prim_math.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/prim_math.go b/prim_math.go
index 60427d7..9d605b7 100644
--- a/prim_math.go
+++ b/prim_math.go
@@ -122,7 +122,13 @@ func sgn(a float32) int64 {
 }
 
 func intSgn(a int64) int64 {
-	return sgn(float32(a))
+	switch {
+	case a < 0:
+		return -1
+	case a > 0:
+		return +1
+	}
+	return 0
 }
 
 func IncrementImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
-- 
2.43.0


From 72b947fd1a82c2d500542932d89964eff6eaff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:31 +0000
Subject: [PATCH 04/28] fix: set!, set-car!, set-cdr! and set-nth! stop at an
 argument error

---
 prim_mutators.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/prim_mutators.go b/prim_mutators.go
index e1f8523..2b15d9a 100644
--- a/prim_mutators.go
+++ b/prim_mutators.go
@@ -20,6 +20,7 @@ func SetVarImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	symbol := Car(args)
 	if !SymbolP(symbol) {
 		err = ProcessError("set! requires a raw (unevaluated) symbol as it's first argument.", env)
+		return
 	}
 	value, err := Eval(Cadr(args), env)
 	if err != nil {
@@ -30,8 +31,12 @@ func SetVarImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 func SetCarImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	pair, err := Eval(Car(args), env)
-	if !PairP(pair) {
+	if err != nil {
+		return
+	}
+	if NilP(pair) || !PairP(pair) {
 		err = ProcessError("set-car! requires a pair as it's first argument.", env)
+		return
 	}
 	value, err := Eval(Cadr(args), env)
 	if err != nil {
@@ -43,8 +48,12 @@ func SetCarImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 func SetCdrImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	pair, err := Eval(Car(args), env)
-	if !PairP(pair) {
+	if err != nil {
+		return
+	}
+	if NilP(pair) || !PairP(pair) {
 		err = ProcessError("set-cdr! requires a pair as it's first argument.", env)
+		return
 	}
 	value, err := Eval(Cadr(args), env)
 	if err != nil {
@@ -57,8 +66,12 @@ func SetCdrImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 func SetNthImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	l, err := Eval(First(args), env)
+	if err != nil {
+		return
+	}
 	if !ListP(l) {
 		err = ProcessError("set-nth! requires a list as it's first argument.", env)
+		return
 	}
 	index, err := Eval(Second(args), env)
 	if err != nil {
-- 
2.43.0


From fd1c07335801bffe93eb750ba67a6dd6c05fc4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:25 +0000
Subject: [PATCH 05/28] fix: appending to an improper list does not overwrite
 its non-list tail

---
 data.go                   | 8 ++++----
 prim_list_manipulation.go | 5 +++++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/data.go b/data.go
index dcfe12f..531e22d 100644
--- a/data.go
+++ b/data.go
@@ -238,7 +238,7 @@ func AppendBang(l *Data, value *Data) *Data {
 	}
 
 	var c *Data
-	for c = l; NotNilP(Cdr(c)); c = Cdr(c) {
+	for c = l; NotNilP(Cdr(c)) && ListP(Cdr(c)); c = Cdr(c) {
 	}
 
 	((*ConsCell)(c.Value)).Cdr = Cons(value, nil)
@@ -252,7 +252,7 @@ func AppendBangList(l *Data, otherList *Data) *Data {
 	}
 
 	var c *Data
-	for c = l; NotNilP(Cdr(c)); c = Cdr(c) {
+	for c = l; NotNilP(Cdr(c)) && ListP(Cdr(c)); c = Cdr(c) {
 	}
 
 	((*ConsCell)(c.Value)).Cdr = otherList
@@ -267,7 +267,7 @@ func Append(l *Data, value *Data) *Data {
 
 	var newList = Copy(l)
 	var c *Data
-	for c = newList; NotNilP(Cdr(c)); c = Cdr(c) {
+	for c = newList; NotNilP(Cdr(c)) && ListP(Cdr(c)); c = Cdr(c) {
 	}
 
 	((*ConsCell)(c.Value)).Cdr = Cons(value, nil)
@@ -282,7 +282,7 @@ func AppendList(l *Data, otherList *Data) *Data {
 
 	var newList = Copy(l)
 	var c *Data
-	for c = newList; NotNilP(Cdr(c)); c = Cdr(c) {
+	for c = newList; NotNilP(Cdr(c)) && ListP(Cdr(c)); c = Cdr(c) {
 	}
 
 	((*ConsCell)(c.Value)).Cdr = otherList
diff --git a/prim_list_manipulation.go b/prim_list_manipulation.go
index a2c6aea..dbb3e3c 100644
--- a/prim_list_manipulation.go
+++ b/prim_list_manipulation.go
@@ -95,6 +95,11 @@ func AppendBangImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
+	if !ListP(firstList) {
+		err = ProcessError("append! requires a list as it's first argument.", env)
+		return
+	}
+
 	second, err := Eval(Cadr(args), env)
 	if err != nil {
 		return
-- 
2.43.0


From 5fa8483a885889696c3dad82f57cd8e685ae6004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:27 +0000
Subject: [PATCH 06/28] fix: apply, apply-slot and apply-slot-super without
 arguments do not index an empty slice

---
 prim_frame.go         | 12 ++++++++----
 prim_special_forms.go |  4 +++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/prim_frame.go b/prim_frame.go
index 395cc52..1e5de2c 100644
--- a/prim_frame.go
+++ b/prim_frame.go
@@ -248,7 +248,7 @@ func ApplySlotImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
-	ary := make([]*Data, 0, Length(args)-2)
+	ary := make([]*Data, 0, Length(args))
 
 	var v *Data
 	for c := Cddr(args); NotNilP(c); c = Cdr(c) {
@@ -260,7 +260,9 @@ func ApplySlotImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 	}
 
 	var argList *Data
-	if ListP(ary[len(ary)-1]) {
+	if len(ary) == 0 {
+		argList = nil
+	} else if ListP(ary[len(ary)-1]) {
 		if len(ary) > 1 {
 			argList = ArrayToListWithTail(ary[0:len(ary)-1], ary[len(ary)-1])
 		} else {
@@ -295,7 +297,7 @@ func ApplySlotSuperImpl(args *Data, env *SymbolTableFrame) (result *Data, err er
 		return
 	}
 
-	ary := make([]*Data, 0, Length(args)-1)
+	ary := make([]*Data, 0, Length(args))
 
 	var v *Data
 	for c := Cdr(args); NotNilP(c); c = Cdr(c) {
@@ -307,7 +309,9 @@ func ApplySlotSuperImpl(args *Data, env *SymbolTableFrame) (result *Data, err er
 	}
 
 	var argList *Data
-	if ListP(ary[len(ary)-1]) {
+	if len(ary) == 0 {
+		argList = nil
+	} else if ListP(ary[len(ary)-1]) {
 		if len(ary) > 1 {
 			argList = ArrayToListWithTail(ary[0:len(ary)-1], ary[len(ary)-1])
 		} else {
diff --git a/prim_special_forms.go b/prim_special_forms.go
index d742d1b..fd0f3f4 100644
--- a/prim_special_forms.go
+++ b/prim_special_forms.go
@@ -454,7 +454,9 @@ func ApplyImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 	ary := ToArray(Cdr(args))
 	var argList *Data
-	if ListP(ary[len(ary)-1]) {
+	if len(ary) == 0 {
+		argList = nil
+	} else if ListP(ary[len(ary)-1]) {
 		if len(ary) > 1 {
 			argList = ArrayToListWithTail(ary[0:len(ary)-1], ary[len(ary)-1])
 		} else {
-- 
2.43.0


From 50e63092e25e035ba5fa783c78963c7a4f51e6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:28 +0000
Subject: [PATCH 07/28] fix: take and drop reject non-numbers and accept
 negative sizes

---
 prim_list_access.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/prim_list_access.go b/prim_list_access.go
index 8ef0936..ac5c13b 100644
--- a/prim_list_access.go
+++ b/prim_list_access.go
@@ -271,8 +271,12 @@ func TakeImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	n := Car(args)
 	if !IntegerP(n) {
 		err = ProcessError("take requires a number as its first argument.", env)
+		return
 	}
 	size := int(IntegerValue(n))
+	if size < 0 {
+		size = 0
+	}
 
 	l := Cadr(args)
 	if ListP(l) {
@@ -304,8 +308,12 @@ func DropImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	n := Car(args)
 	if !IntegerP(n) {
 		err = ProcessError("drop requires a number as its first argument.", env)
+		return
 	}
 	size := int(IntegerValue(n))
+	if size < 0 {
+		size = 0
+	}
 
 	l := Cadr(args)
 
-- 
2.43.0


From 93903a007e0b412e97295b0406cdacf5be91ff23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:29 +0000
Subject: [PATCH 08/28] fix: make-list, interval and make-channel do not panic
 on huge sizes

---
 prim_channel.go           | 3 ++-
 prim_list_manipulation.go | 2 +-
 prim_math.go              | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/prim_channel.go b/prim_channel.go
index 44d65f2..d9ada64 100644
--- a/prim_channel.go
+++ b/prim_channel.go
@@ -9,6 +9,7 @@ package golisp
 
 import (
 	"fmt"
+	"math"
 	"unsafe"
 )
 
@@ -40,7 +41,7 @@ func MakeChannelImpl(args *Data, env *SymbolTableFrame) (result *Data, err error
 			return
 		}
 
-		const maxInt = int64(int(^uint(0) >> 1))
+		const maxInt = int64(math.MaxInt32)
 
 		if channelLength > maxInt {
 			err = ProcessError(fmt.Sprintf("channel size is too big; got %d, max is %d.", channelLength, maxInt), env)
diff --git a/prim_list_manipulation.go b/prim_list_manipulation.go
index dbb3e3c..cd50891 100644
--- a/prim_list_manipulation.go
+++ b/prim_list_manipulation.go
@@ -50,7 +50,7 @@ func MakeListImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	}
 
 	var items []*Data
-	items = make([]*Data, 0, k)
+	items = make([]*Data, 0)
 	for ; k > 0; k = k - 1 {
 		items = append(items, element)
 	}
diff --git a/prim_math.go b/prim_math.go
index 9d605b7..52a5c4a 100644
--- a/prim_math.go
+++ b/prim_math.go
@@ -352,7 +352,7 @@ func IntervalImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 			step = direction
 		}
 	}
-	var items []*Data = make([]*Data, 0, int(math.Abs(float64(end-start)))+1)
+	var items []*Data = make([]*Data, 0)
 
 	if direction == 1 {
 		for i := start; i <= end; i = i + step {
-- 
2.43.0


From 3fcba99fe683f32faab22d5c9c43cf2c72cfcf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:30 +0000
Subject: [PATCH 09/28] fix: exec and profile stop at an argument error

---
 prim_system.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prim_system.go b/prim_system.go
index 83daedf..c805e06 100644
--- a/prim_system.go
+++ b/prim_system.go
@@ -255,6 +255,7 @@ func ProfileImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	if Length(args) == 2 {
 		if !StringP(Cadr(args)) {
 			err = ProcessError(fmt.Sprintf("profile requires a string filename, but received %s.", String(Cadr(args))), env)
+			return
 		}
 		StartProfiling(StringValue(Cadr(args)))
 	} else {
@@ -271,10 +272,11 @@ func ProfileImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 func ExecImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	if !StringP(First(args)) {
 		err = ProcessError(fmt.Sprintf("exec requires a string command, but received %s.", String(First(args))), env)
+		return
 	}
 	cmdString := StringValue(First(args))
 
-	cmdArgs := make([]string, 0, Length(args)-1)
+	cmdArgs := make([]string, 0, Length(args))
 
 	var cmd *exec.Cmd
 
-- 
2.43.0


From 904fc860b2d41cdbe1cf6c94628d7d6a10080b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:32 +0000
Subject: [PATCH 10/28] fix: format reports a truncated directive instead of
 indexing past the control string

---
 prim_io.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/prim_io.go b/prim_io.go
index b2c919b..496f2b4 100644
--- a/prim_io.go
+++ b/prim_io.go
@@ -227,9 +227,13 @@ func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 			parts = append(parts, controlString[start:i])
 			i++
 			start = i
-			for unicode.IsDigit(rune(controlString[i])) {
+			for i < len(controlString) && unicode.IsDigit(rune(controlString[i])) {
 				i++
 			}
+			if i >= len(controlString) {
+				err = ProcessError("format encountered an incomplete substitution at the end of the control string", env)
+				return
+			}
 			if i == start {
 				if controlString[i] == '#' {
 					numericArg = Length(arguments)
@@ -253,10 +257,14 @@ func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 				}
 				numericArg = int(n)
 			}
-			if controlString[i] == '@' {
+			if i < len(controlString) && controlString[i] == '@' {
 				atModifier = true
 				i++
 			}
+			if i >= len(controlString) {
+				err = ProcessError("format encountered an incomplete substitution at the end of the control string", env)
+				return
+			}
 			switch controlString[i] {
 			case 'A', 'a':
 				substitution = PrintString(Car(arguments))
-- 
2.43.0


From f0fe010ac7edf573bf1f1ea71d58b20b9fbfedc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:33 +0000
Subject: [PATCH 11/28] fix: string-capitalize of the empty string and
 substring with a negative start do not panic

---
 prim_string.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/prim_string.go b/prim_string.go
index 0e9fd84..7b50f45 100644
--- a/prim_string.go
+++ b/prim_string.go
@@ -183,6 +183,9 @@ func StringDowncaseBangImpl(args *Data, env *SymbolTableFrame) (result *Data, er
 }
 
 func capitalize(s string) string {
+	if len(s) == 0 {
+		return s
+	}
 	firstChar := s[0:1]
 	remainingChars := s[1:]
 	parts := make([]string, 0, 2)
@@ -245,6 +248,10 @@ func SubstringImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 	startValue := int(IntegerValue(startObj))
+	if startValue < 0 {
+		err = ProcessError(fmt.Sprintf("substring requires start >= 0."), env)
+		return
+	}
 	if startValue > len(stringValue) {
 		err = ProcessError(fmt.Sprintf("substring requires start < length of the string."), env)
 		return
-- 
2.43.0


From c52f6a37a3b3828a18976d9ff495ae21ac44bd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:34 +0000
Subject: [PATCH 12/28] fix: a non-frame value in a parent slot is not
 dereferenced as a frame

---
 frame.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame.go b/frame.go
index 2430579..416c828 100644
--- a/frame.go
+++ b/frame.go
@@ -51,7 +51,7 @@ func (self *FrameMap) hasParentSlots() bool {
 func (self *FrameMap) Parents() []*FrameMap {
 	parents := make([]*FrameMap, 0, 0)
 	for k, v := range self.Data {
-		if isParentKey(k) && v != nil {
+		if isParentKey(k) && FrameP(v) && FrameValue(v) != nil {
 			parents = append(parents, FrameValue(v))
 		}
 	}
-- 
2.43.0


From b920299c2de8822a6ffbab097688c0764eab7f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:35 +0000
Subject: [PATCH 13/28] fix: arity strings of non-ASCII text do not index past
 their runes

---
 primitive_function.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/primitive_function.go b/primitive_function.go
index 8789c47..cd965e1 100644
--- a/primitive_function.go
+++ b/primitive_function.go
@@ -166,6 +166,9 @@ func isGTE(str string) bool {
 	}
 
 	runes := []rune(str)
+	if len(runes) < 3 {
+		return false
+	}
 	if runes[0] != '>' || runes[1] != '=' {
 		return false
 	}
-- 
2.43.0


From 2866f1ff279c0651e8ddba117b0595b9f6728f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:37 +0000
Subject: [PATCH 14/28] fix: integers are compared as integers

---
 prim_relative_logical.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/prim_relative_logical.go b/prim_relative_logical.go
index 9075e56..72c99ed 100644
--- a/prim_relative_logical.go
+++ b/prim_relative_logical.go
@@ -41,6 +41,10 @@ func LessThanImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		return
 	}
 
+	if IntegerP(arg1) && IntegerP(arg2) {
+		return BooleanWithValue(IntegerValue(arg1) < IntegerValue(arg2)), nil
+	}
+
 	val := FloatValue(arg1) < FloatValue(arg2)
 	return BooleanWithValue(val), nil
 }
@@ -58,6 +62,10 @@ func GreaterThanImpl(args *Data, env *SymbolTableFrame) (result *Data, err error
 		return
 	}
 
+	if IntegerP(arg1) && IntegerP(arg2) {
+		return BooleanWithValue(IntegerValue(arg1) > IntegerValue(arg2)), nil
+	}
+
 	val := FloatValue(arg1) > FloatValue(arg2)
 	return BooleanWithValue(val), nil
 }
@@ -87,6 +95,10 @@ func LessThanOrEqualToImpl(args *Data, env *SymbolTableFrame) (result *Data, err
 		return
 	}
 
+	if IntegerP(arg1) && IntegerP(arg2) {
+		return BooleanWithValue(IntegerValue(arg1) <= IntegerValue(arg2)), nil
+	}
+
 	val := FloatValue(arg1) <= FloatValue(arg2)
 	return BooleanWithValue(val), nil
 }
@@ -104,6 +116,10 @@ func GreaterThanOrEqualToImpl(args *Data, env *SymbolTableFrame) (result *Data,
 		return
 	}
 
+	if IntegerP(arg1) && IntegerP(arg2) {
+		return BooleanWithValue(IntegerValue(arg1) >= IntegerValue(arg2)), nil
+	}
+
 	val := FloatValue(arg1) >= FloatValue(arg2)
 	return BooleanWithValue(val), nil
 }
-- 
2.43.0


From 542e586d204d02b9ab81fc056b1d3cebd546e304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:38 +0000
Subject: [PATCH 15/28] fix: abs of an integer is computed exactly

---
 prim_math.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/prim_math.go b/prim_math.go
index 52a5c4a..b0882bd 100644
--- a/prim_math.go
+++ b/prim_math.go
@@ -607,11 +607,14 @@ func AbsImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		err = ProcessError(fmt.Sprintf("abs expected a number, received %s", String(Car(args))), env)
 		return
 	}
-	absval := math.Abs(float64(FloatValue(val)))
 	if IntegerP(val) {
-		result = IntegerWithValue(int64(absval))
+		intval := IntegerValue(val)
+		if intval < 0 {
+			intval = -intval
+		}
+		result = IntegerWithValue(intval)
 	} else {
-		result = FloatWithValue(float32(absval))
+		result = FloatWithValue(float32(math.Abs(float64(FloatValue(val)))))
 	}
 	return
 }
-- 
2.43.0


From e4da904bad6bd2a4c4a947a68118bf027cd40475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:39 +0000
Subject: [PATCH 16/28] fix: a symbol interned by two threads at once is one
 symbol

---
 symbol_table_frame.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index 9367a16..7cb1921 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -52,8 +52,11 @@ func Intern(name string) (sym *Data) {
 	internedSymbols.Mutex.RUnlock()
 	if sym == nil {
 		internedSymbols.Mutex.Lock()
-		sym = SymbolWithName(name)
-		internedSymbols.Symbols[name] = sym
+		sym = internedSymbols.Symbols[name]
+		if sym == nil {
+			sym = SymbolWithName(name)
+			internedSymbols.Symbols[name] = sym
+		}
 		internedSymbols.Mutex.Unlock()
 	}
 	return
-- 
2.43.0


From 4f834c447ff8a7cb801a09ed104f27d97a4c7491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:40 +0000
Subject: [PATCH 17/28] fix: environment inspection primitives hold the read
 lock of the environment

---
 prim_environment.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prim_environment.go b/prim_environment.go
index bb592b3..44ce238 100644
--- a/prim_environment.go
+++ b/prim_environment.go
@@ -65,6 +65,8 @@ func EnvironmentBoundNamesImpl(args *Data, env *SymbolTableFrame) (result *Data,
 	}
 	e := EnvironmentValue(Car(args))
 	keys := make([]*Data, 0, 0)
+	e.Mutex.RLock()
+	defer e.Mutex.RUnlock()
 	for _, val := range e.Bindings {
 		keys = append(keys, val.Sym)
 	}
@@ -78,6 +80,8 @@ func EnvironmentMacroNamesImpl(args *Data, env *SymbolTableFrame) (result *Data,
 	}
 	e := EnvironmentValue(Car(args))
 	keys := make([]*Data, 0, 0)
+	e.Mutex.RLock()
+	defer e.Mutex.RUnlock()
 	for _, val := range e.Bindings {
 		if MacroP(val.Val) {
 			keys = append(keys, val.Sym)
@@ -93,6 +97,8 @@ func EnvironmentBindingsImpl(args *Data, env *SymbolTableFrame) (result *Data, e
 	}
 	e := EnvironmentValue(Car(args))
 	keys := make([]*Data, 0, 0)
+	e.Mutex.RLock()
+	defer e.Mutex.RUnlock()
 	for _, val := range e.Bindings {
 		if NilP(val.Val) {
 			keys = append(keys, InternalMakeList(val.Sym))
-- 
2.43.0


From d6c1c70547b1cf621e267d139f17e773ace8c1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:42 +0000
Subject: [PATCH 18/28] fix: environment-assign! does not change a protected
 binding

---
 prim_environment.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prim_environment.go b/prim_environment.go
index 44ce238..50faa31 100644
--- a/prim_environment.go
+++ b/prim_environment.go
@@ -252,6 +252,10 @@ func EnvironmentAssignBangImpl(args *Data, env *SymbolTableFrame) (result *Data,
 	localEnv := EnvironmentValue(Car(args))
 	binding, found := localEnv.FindBindingFor(Cadr(args))
 	if found {
+		if binding.Protected {
+			err = ProcessError("environment-assign!: name is a protected binding", env)
+			return
+		}
 		result = Caddr(args)
 		binding.Val = result
 	}
-- 
2.43.0


From 4e7607cebe511a2aee3a1076a5b0632bbff3c0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:43 +0000
Subject: [PATCH 19/28] fix: cons* and nested-frame environments accept an
 empty or nil argument

---
 prim_list_manipulation.go | 5 ++++-
 symbol_table_frame.go     | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/prim_list_manipulation.go b/prim_list_manipulation.go
index cd50891..1f70df3 100644
--- a/prim_list_manipulation.go
+++ b/prim_list_manipulation.go
@@ -63,7 +63,10 @@ func ListImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 func ConsStarImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	ary := ToArray(args)
-	l := Length(args) - 1
+	l := len(ary) - 1
+	if l < 0 {
+		return
+	}
 	return ArrayToListWithTail(ary[0:l], ary[l]), nil
 }
 
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index 7cb1921..25cb9e1 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -148,7 +148,7 @@ func NewSymbolTableFrameBelow(p *SymbolTableFrame, name string) *SymbolTableFram
 }
 
 func NewSymbolTableFrameBelowWithFrame(p *SymbolTableFrame, f *FrameMap, name string) *SymbolTableFrame {
-	if f == nil {
+	if f == nil && p != nil {
 		f = p.Frame
 	}
 	restricted := p != nil && p.IsRestricted
-- 
2.43.0


From d353399e4759b4a3b72443bee0ab6228ee831937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:49 +0000
Subject: [PATCH 20/28] fix: set-nth! past the proper part of a list does not
 dereference a non-list

---
 list_access.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list_access.go b/list_access.go
index e38ba14..6609979 100644
--- a/list_access.go
+++ b/list_access.go
@@ -138,7 +138,7 @@ func Tenth(d *Data) *Data {
 func SetNth(list *Data, index int, value *Data) *Data {
 	for i := index; i > 1; list, i = Cdr(list), i-1 {
 	}
-	if !NilP(list) {
+	if NotNilP(list) && ListP(list) {
 		ConsValue(list).Car = value
 	}
 
-- 
2.43.0


From 9912af40311f60ab1fb98a69ce048d8c05a36309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:32 +0000
Subject: [PATCH 21/28] fix: bind a rest parameter that is the whole parameter
 list

---
 function.go | 3 +++
 macro.go    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/function.go b/function.go
index 4bdd440..0b64282 100644
--- a/function.go
+++ b/function.go
@@ -63,6 +63,9 @@ func (self *Function) makeLocalBindings(args *Data, argEnv *SymbolTableFrame, lo
 	var argValue *Data
 	var accumulatingParam *Data = nil
 	accumulatedArgs := make([]*Data, 0)
+	if SymbolP(self.Params) {
+		accumulatingParam = self.Params
+	}
 	for p, a := self.Params, args; NotNilP(a); a = Cdr(a) {
 		if eval {
 			argValue, err = Eval(Car(a), argEnv)
diff --git a/macro.go b/macro.go
index c8f7f9c..c20fd23 100644
--- a/macro.go
+++ b/macro.go
@@ -44,6 +44,9 @@ func (self *Macro) makeLocalBindings(args *Data, argEnv *SymbolTableFrame, local
 	var argValue *Data
 	var accumulatingParam *Data = nil
 	accumulatedArgs := make([]*Data, 0)
+	if SymbolP(self.Params) {
+		accumulatingParam = self.Params
+	}
 	for p, a := self.Params, args; NotNilP(a); a = Cdr(a) {
 		if eval {
 			argValue, err = Eval(Car(a), argEnv)
-- 
2.43.0


From 0c135fbab8b4dfaeb92271e188bbccaf8d63cbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:34 +0000
Subject: [PATCH 22/28] fix: environment-assign! reports an unbound name

---
 prim_environment.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prim_environment.go b/prim_environment.go
index 50faa31..df25871 100644
--- a/prim_environment.go
+++ b/prim_environment.go
@@ -258,6 +258,8 @@ func EnvironmentAssignBangImpl(args *Data, env *SymbolTableFrame) (result *Data,
 		}
 		result = Caddr(args)
 		binding.Val = result
+	} else {
+		err = ProcessError("environment-assign!: name is unbound", env)
 	}
 	return
 }
-- 
2.43.0


From 6ff1130ff9303ca8b61b8074863c94a9050edbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:35 +0000
Subject: [PATCH 23/28] fix: do reports an error in a step expression

---
 prim_special_forms.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prim_special_forms.go b/prim_special_forms.go
index fd0f3f4..ce13eb1 100644
--- a/prim_special_forms.go
+++ b/prim_special_forms.go
@@ -437,8 +437,9 @@ func DoImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 			}
 		}
 
-		if rebindDoLocals(bindings, localEnv) != nil {
-			return
+		err = rebindDoLocals(bindings, localEnv)
+		if err != nil {
+			return nil, err
 		}
 	}
 	return
-- 
2.43.0


From ad7755797cf88e023f4e229230b47d6965a338dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:37 +0000
Subject: [PATCH 24/28] fix: find and find-tail report an error of the
 predicate

---
 prim_list_functions.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prim_list_functions.go b/prim_list_functions.go
index 4aba735..576304c 100644
--- a/prim_list_functions.go
+++ b/prim_list_functions.go
@@ -434,6 +434,9 @@ func FindTailImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	var found *Data
 	for c := l; NotNilP(c); c = Cdr(c) {
 		found, err = ApplyWithoutEval(f, InternalMakeList(Car(c)), env)
+		if err != nil {
+			return
+		}
 
 		if !BooleanP(found) {
 			err = ProcessError("find-tail needs a predicate function as its first argument.", env)
@@ -463,6 +466,9 @@ func FindImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	var found *Data
 	for c := l; NotNilP(c); c = Cdr(c) {
 		found, err = ApplyWithoutEval(f, InternalMakeList(Car(c)), env)
+		if err != nil {
+			return
+		}
 		if !BooleanP(found) {
 			err = ProcessError("find needs a predicate function as its first argument.", env)
 			return
-- 
2.43.0


From fcd5aa9b070232d1c521d8afe9c60345d6fdc4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:47 +0000
Subject: [PATCH 25/28] fix: quoting an argument list neither adds an argument
 to the empty list nor one for its tail

---
 data.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/data.go b/data.go
index 531e22d..66083b9 100644
--- a/data.go
+++ b/data.go
@@ -728,12 +728,8 @@ func QuoteIt(value *Data) (result *Data) {
 
 func QuoteAll(d *Data) (result *Data) {
 	var l []*Data = make([]*Data, 0, 10)
-	if d == nil {
-		l = append(l, QuoteIt(nil))
-	} else {
-		for c := d; c != nil; c = Cdr(c) {
-			l = append(l, QuoteIt(Car(c)))
-		}
+	for c := d; NotNilP(c); c = Cdr(c) {
+		l = append(l, QuoteIt(Car(c)))
 	}
 	return ArrayToList(l)
 }
-- 
2.43.0


From 380570012db56375ac5b890782e66046557d8a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:53 +0000
Subject: [PATCH 26/28] fix: flattening drops an empty list in either of its
 representations

---
 data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data.go b/data.go
index 66083b9..8bbf319 100644
--- a/data.go
+++ b/data.go
@@ -679,7 +679,7 @@ func Flatten(d *Data) (result *Data, err error) {
 	var l []*Data = make([]*Data, 0, 10)
 	for c := d; NotNilP(c); c = Cdr(c) {
 		if ListP(Car(c)) {
-			for i := Car(c); i != nil; i = Cdr(i) {
+			for i := Car(c); NotNilP(i); i = Cdr(i) {
 				l = append(l, Car(i))
 			}
 		} else {
@@ -707,7 +707,7 @@ func RecursiveFlatten(d *Data) (result *Data, err error) {
 			if err != nil {
 				return
 			}
-			for i := elem; i != nil; i = Cdr(i) {
+			for i := elem; NotNilP(i); i = Cdr(i) {
 				l = append(l, Car(i))
 			}
 		} else {
-- 
2.43.0


From 8121ec1be716385c1b10160ff4aefd90fc34cc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:12 +0000
Subject: [PATCH 27/28] fix: last-pair of an association list is its last cell

---
 prim_list_access.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prim_list_access.go b/prim_list_access.go
index ac5c13b..91f7028 100644
--- a/prim_list_access.go
+++ b/prim_list_access.go
@@ -411,7 +411,7 @@ func LastPairImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	}
 
 	var cell *Data
-	for cell = l; NotNilP(Cdr(cell)) && PairP(Cdr(cell)); cell = Cdr(cell) {
+	for cell = l; NotNilP(Cdr(cell)) && ListP(Cdr(cell)); cell = Cdr(cell) {
 	}
 
 	return cell, nil
-- 
2.43.0


From 6fc95cc5ee9ad9c948762a5804ff6bb8a1b1730b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:22 +0000
Subject: [PATCH 28/28] fix: reversing a list whose first element is nil keeps
 that element

---
 data.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/data.go b/data.go
index 8bbf319..ebfafba 100644
--- a/data.go
+++ b/data.go
@@ -661,7 +661,11 @@ func Reverse(d *Data) (result *Data) {
 
 	var l *Data = nil
 	for c := d; NotNilP(c); c = Cdr(c) {
-		l = Cons(Car(c), l)
+		element := Car(c)
+		if element == nil {
+			element = EmptyCons()
+		}
+		l = Cons(element, l)
 	}
 
 	return l
-- 
2.43.0

