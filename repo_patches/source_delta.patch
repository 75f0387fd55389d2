From 27e9beaed55c76e63c0da8d18b878d147598dd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:14 +0000
Subject: [PATCH 01/16] fix: applying a slice to a non-array keeps the values
 already selected

---
 mach/run.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mach/run.go b/mach/run.go
index 1a1d3e7..b99d69a 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -717,7 +717,7 @@ func valsByKey(vals []JSON, src JSON, key JSON, negIndex bool) []JSON {
 	if isSlice(key) {
 		src, ok := src.([]JSON)
 		if !ok {
-			return nil
+			return vals
 		}
 		slice := key.(*paths.Slice)
 		start, end, stride := sliceEval(slice, int64(len(src)))
-- 
2.43.0


From d122d134b081db7d224a8560add130c5024b06ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:16 +0000
Subject: [PATCH 02/16] fix: a filter or descent with nothing to visit does not
 visit a null

---
 mach/run.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mach/run.go b/mach/run.go
index b99d69a..df1da05 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -542,7 +542,15 @@ func looptop(vm *machine, producer func(chan<- JSON, []JSON), epc int) {
 	vm.pushInput(values)
 	go producer(values, vm.out)
 	vm.out = []JSON{}
-	vm.dot = <-values
+	dot, more := <-values
+	if !more {
+		// nothing to visit: skip the loop body
+		vm.popInput()
+		vm.dot = nil
+		vm.branch(epc)
+		return
+	}
+	vm.dot = dot
 }
 
 // sliceEval returns an interpretation of the given Slice with respect to an array of length l.
-- 
2.43.0


From 9a58d024c52786560dd2767bb3fb947e3fc19c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:17 +0000
Subject: [PATCH 03/16] fix: a run-time error in a filter does not leave its
 producer blocked for ever

---
 mach/run.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mach/run.go b/mach/run.go
index df1da05..01f171e 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -89,6 +89,15 @@ func (m *machine) popInput() {
 	m.values = m.values[0 : len(m.values)-1]
 }
 
+// drain lets any producers still active finish, when a run stops early because of an error.
+func (m *machine) drain() {
+	for len(m.values) > 0 {
+		for range m.topInput() {
+		}
+		m.popInput()
+	}
+}
+
 // nothing represents an evaluation without a usable result.
 // Any error will do.
 // ("nothing is better than Advil")
@@ -125,6 +134,7 @@ func (m *machine) valsOK(a, b JSON) bool {
 // Following the usual JavaScript conventions, many other errors do not stop evaluation, but yield a null result, detectable using || and &&.
 func (p *Program) Run(root JSON) ([]JSON, error) {
 	vm := &machine{prog: p, root: root, out: []JSON{root}, pc: 0, tracing: false}
+	defer vm.drain()
 	for vm.pc < len(p.orders) {
 		ord := p.orders[vm.pc]
 		vm.pc++
-- 
2.43.0


From 5bef778214c2e7c50ffeb0c444872124c87b5723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:19 +0000
Subject: [PATCH 04/16] fix: a huge slice stride does not overflow the array
 index

---
 mach/run.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mach/run.go b/mach/run.go
index 01f171e..5c98f9e 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -583,6 +583,13 @@ func sliceEval(slice *paths.Slice, l int64) (int64, int64, int64) {
 	if slice.End != nil {
 		end = cvi(slice.End)
 	}
+	// any stride that leaves the array selects only the first item; limit it to prevent overflow
+	switch {
+	case stride > l:
+		stride = l + 1
+	case stride < -l:
+		stride = -l - 1
+	}
 	if stride < 0 {
 		// items from start descending to end (excluded)
 		switch {
-- 
2.43.0


From 6c73a8c89b8f471a4f4311e4f908dbbb1e8359a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:20 +0000
Subject: [PATCH 05/16] fix: max of strings returns the greatest string

---
 mach/fns.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mach/fns.go b/mach/fns.go
index 21280ba..03542b0 100644
--- a/mach/fns.go
+++ b/mach/fns.go
@@ -350,7 +350,7 @@ func minString(index int, min, el string) string {
 }
 
 func maxString(index int, max, el string) string {
-	if index == 0 || el < max {
+	if index == 0 || el > max {
 		return el
 	}
 	return max
-- 
2.43.0


From addf5ec00cbcd48596a05417c500bf20c41ebcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:22 +0000
Subject: [PATCH 06/16] fix: avg of an empty array is null, not NaN

---
 mach/fns.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mach/fns.go b/mach/fns.go
index 03542b0..251561e 100644
--- a/mach/fns.go
+++ b/mach/fns.go
@@ -52,6 +52,9 @@ var functions = map[string]Function{
 		1,
 		func(args []JSON) JSON {
 			if a, ok := args[0].([]JSON); ok {
+				if len(a) == 0 {
+					return nil
+				}
 				var sum float64
 				for _, v := range a {
 					if !isArith(v) {
-- 
2.43.0


From 7bf6579c9c8af1b3a07793f9b3360790f03f6274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:35 +0000
Subject: [PATCH 07/16] fix: an integer compared with a numeric string is not
 truncated (0 == "1.5", 1 == "1.0")

---
 mach/json.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/mach/json.go b/mach/json.go
index 42740c6..ab00fa1 100644
--- a/mach/json.go
+++ b/mach/json.go
@@ -132,18 +132,34 @@ func badNum(s string, fp bool) bool {
 	return false
 }
 
+// isIntegral returns true if v converts exactly to an integer by cvi.
+func isIntegral(v JSON) bool {
+	switch v := v.(type) {
+	case bool, int, int64:
+		return true
+	case string:
+		if v == "" {
+			return true // wat!
+		}
+		_, err := strconv.ParseInt(v, 10, 64)
+		return err == nil
+	default:
+		return false
+	}
+}
+
 // eqNum returns true if numeric values a and b are equal
 func eqNum(a, b JSON) bool {
-	if isFloat(a) || isFloat(b) {
-		var zero float64
-		va := cvf(a)
-		vb := cvf(b)
-		if va == 0.0 && vb == -zero || vb == 0.0 && va == -zero {
-			return true
-		}
-		return va == vb // this will be false for NaN
+	if isIntegral(a) && isIntegral(b) {
+		return cvi(a) == cvi(b)
+	}
+	var zero float64
+	va := cvf(a)
+	vb := cvf(b)
+	if va == 0.0 && vb == -zero || vb == 0.0 && va == -zero {
+		return true
 	}
-	return cvi(a) == cvi(b)
+	return va == vb // this will be false for NaN
 }
 
 // eqVal returns the value of the Abstract Equality Comparison Algorithm (ECMA-262, 5.1, 11.9.3) [see notes/abstract-equality.pdf].
-- 
2.43.0


From f34b20fd923af495a98b95d1836ed0aa78cce827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:37 +0000
Subject: [PATCH 08/16] fix: objects with different member names are not equal

---
 mach/json.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mach/json.go b/mach/json.go
index ab00fa1..6f43faf 100644
--- a/mach/json.go
+++ b/mach/json.go
@@ -263,7 +263,8 @@ func eqVal(a, b JSON) bool {
 				return false
 			}
 			for k, v := range a {
-				if !eqVal(v, b[k]) {
+				bv, ok := b[k]
+				if !ok || !eqVal(v, bv) {
 					return false
 				}
 			}
-- 
2.43.0


From c5682a73c08c0f0f6b83e670bccd4569c72ef638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:39 +0000
Subject: [PATCH 09/16] fix: an array equals a number or boolean only if its
 one element does (["x"] == 0)

---
 mach/json.go | 49 +++++++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/mach/json.go b/mach/json.go
index 6f43faf..c5501dc 100644
--- a/mach/json.go
+++ b/mach/json.go
@@ -88,30 +88,37 @@ func IsStructure(j JSON) bool {
 	}
 }
 
-// eqArrayS returns true if array a as a string equals b.
+// arrayPrim returns the primitive value that represents array a in a comparison with a primitive value,
+// and false if there is none that could be equal.
 // This represents Array.prototype.toString, reduced to the cases that can be true.
-func eqArrayS(a []JSON, b string) bool {
+func arrayPrim(a []JSON) (JSON, bool) {
 	switch len(a) {
 	case 0:
-		return b == ""
+		return "", true
 	case 1:
-		return cvs(a[0]) == b
+		switch el := a[0].(type) {
+		case nil:
+			return "", true
+		case []JSON:
+			return arrayPrim(el)
+		default:
+			return el, typeOf(el) != Object
+		}
 	default:
-		return false
+		return nil, false
 	}
 }
 
-// eqArrayN returns true if array a as a string converted to a Number equals b.
-// This represents Array.prototype.toString, reduced to the cases that can be true.
-func eqArrayN(a []JSON, b JSON) bool {
-	switch len(a) {
-	case 0:
-		return eqNum(b, 0.0)
-	case 1:
-		return eqNum(a[0], b)
-	default:
-		return false
-	}
+// eqArrayS returns true if array a as a string equals b.
+func eqArrayS(a []JSON, b string) bool {
+	p, ok := arrayPrim(a)
+	return ok && cvs(p) == b
+}
+
+// eqArrayP returns true if array a as a primitive value equals b, a Number or Boolean.
+func eqArrayP(a []JSON, b JSON) bool {
+	p, ok := arrayPrim(a)
+	return ok && eqVal(p, b)
 }
 
 // badNum returns true if the string s would result in NaN in JS, where fp requires floating-point.
@@ -202,13 +209,11 @@ func eqVal(a, b JSON) bool {
 		case Object<<8 | Boolean:
 			// 11.9.3(6) [a == ToNumber(b)]
 			a, ok := a.([]JSON)
-			b := cvi(b)
-			return ok && (b == 0 && len(a) == 0 || len(a) == 1 && cvi(a[0]) == b)
+			return ok && eqArrayP(a, b)
 		case Boolean<<8 | Object:
 			// 11.9.3(7) [ToNumber(a) == b]
 			b, ok := b.([]JSON)
-			a := cvi(a)
-			return ok && (a == 0 && len(b) == 0 || len(b) == 1 && cvi(b[0]) == a)
+			return ok && eqArrayP(b, a)
 		case String<<8 | Object, Object<<8 | String:
 			// 11.9.3(8), 11.9.3(9)
 			// note only one can be an Object, and only when that's an array can == be true
@@ -223,10 +228,10 @@ func eqVal(a, b JSON) bool {
 			// 11.9.3(8), 11.9.3(9)
 			// note only one can be an Object, and only when that's an array can == be true
 			if a, ok := a.([]JSON); ok {
-				return eqArrayN(a, b)
+				return eqArrayP(a, b)
 			}
 			if b, ok := b.([]JSON); ok {
-				return eqArrayN(b, a)
+				return eqArrayP(b, a)
 			}
 			return false
 		default:
-- 
2.43.0


From 2b00939f4d70a48087e22fa213de048646ce53e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:40 +0000
Subject: [PATCH 10/16] fix: the text of a number in an array comparison
 follows JavaScript ([1000000] == "1000000")

---
 mach/json.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/mach/json.go b/mach/json.go
index c5501dc..7ea7db0 100644
--- a/mach/json.go
+++ b/mach/json.go
@@ -301,8 +301,10 @@ func cvs(v JSON) string {
 		return "null"
 	case string:
 		return v
-	case bool, int, int64, float64:
+	case bool, int, int64:
 		return fmt.Sprint(v)
+	case float64:
+		return floatString(v)
 	case json.Number:
 		return v.String()
 	default:
@@ -311,6 +313,17 @@ func cvs(v JSON) string {
 	}
 }
 
+// floatString returns the text of v following Number::toString (ECMA-262, 5.1, 9.8.1).
+func floatString(v float64) string {
+	if v == 0 {
+		return "0" // also for -0
+	}
+	if abs := math.Abs(v); abs >= 1e-6 && abs < 1e21 {
+		return strconv.FormatFloat(v, 'f', -1, 64)
+	}
+	return strings.Replace(strconv.FormatFloat(v, 'e', -1, 64), "e-0", "e-", 1)
+}
+
 // convert a value to integer.
 func cvi(v JSON) int64 {
 	// TO DO: protect against conversion traps
-- 
2.43.0


From 9e632cd2f061787a583adff6815c29687c4907f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:42 +0000
Subject: [PATCH 11/16] fix: a computed subscript that is a number from the
 document indexes an array

---
 mach/run.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mach/run.go b/mach/run.go
index 5c98f9e..1eadac2 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -762,8 +762,8 @@ func valsByKey(vals []JSON, src JSON, key JSON, negIndex bool) []JSON {
 	}
 	switch src := src.(type) {
 	case []JSON:
-		if isInt(key) {
-			// [integer]
+		if isInt(key) || isFloat(key) {
+			// [integer] (floats here are the result of (expr))
 			v, ok := valByKey(src, key, negIndex)
 			if ok {
 				vals = append(vals, v)
-- 
2.43.0


From 7bd9dd6158b20b340e46a36ca8372e3d983f3c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 12/16] fix: indexing an array in an expression by something
 not a number yields nothing

---
 mach/run.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mach/run.go b/mach/run.go
index 1eadac2..e839775 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -300,6 +300,11 @@ func (p *Program) Run(root JSON) ([]JSON, error) {
 			}
 			switch val := val.(type) {
 			case []JSON:
+				if !isArith(index) && !(isString(index) && isIntegral(index)) {
+					// not a number, nor convertible to one
+					vm.push(nothing)
+					break
+				}
 				sel := cvi(index) // can be only int, or convertible
 				l := int64(len(val))
 				if sel < 0 {
-- 
2.43.0


From c4a811554be45378d8d88a42a47ea5d73f4af7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 13/16] fix: a surrogate escape after an unpaired one can start
 a pair

---
 paths/lex.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/paths/lex.go b/paths/lex.go
index aebc49f..4e05a2e 100644
--- a/paths/lex.go
+++ b/paths/lex.go
@@ -193,8 +193,10 @@ func (l *lexer) lexString(cq int) (string, error) {
 						// consume surrogate and its pair
 						continue
 					}
-					// invalid surrogate pair: already produced ReplacementChar
-				} else if utf16.IsSurrogate(rv) {
+					// invalid surrogate pair: already produced ReplacementChar,
+					// but the second value might itself start a pair
+				}
+				if utf16.IsSurrogate(rv) {
 					surr = rv
 					continue
 				}
-- 
2.43.0


From 7ca6068d4c41a8dc4476bec9dc9b3c40f90afa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:11 +0000
Subject: [PATCH 14/16] fix: a program too long for its order encoding is
 rejected, not mis-coded

---
 mach/coder.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/mach/coder.go b/mach/coder.go
index 327e308..85a8a7d 100644
--- a/mach/coder.go
+++ b/mach/coder.go
@@ -9,6 +9,7 @@ import (
 
 var (
 	ErrTooManyVals = errors.New("program has too many values")
+	ErrTooLong     = errors.New("program is too long")
 )
 
 // builder is the state when building a program
@@ -60,6 +61,9 @@ func (b *builder) codeLoop(step *paths.Step, intro paths.Op) error {
 		return err
 	}
 	prog.asm(mkSmall(paths.OpRep, lpc))
+	if !isSmallInt(int64(prog.size())) {
+		return ErrTooLong
+	}
 	prog.patch(fpc, mkSmall(intro, prog.size()))
 	return nil
 }
@@ -68,8 +72,14 @@ func (b *builder) codeStep(step *paths.Step) (int, error) {
 	prog := b.prog
 	pc := prog.size()
 	err := b.codeArgs(step.Args)
+	if err != nil {
+		return pc, err
+	}
+	if !isSmallInt(int64(len(step.Args))) {
+		return pc, ErrTooLong
+	}
 	prog.asm(mkSmall(step.Op, len(step.Args)))
-	return pc, err
+	return pc, nil
 }
 
 func (b *builder) codeArgs(args []paths.Val) error {
@@ -124,6 +134,9 @@ func (b *builder) codeExpr(expr paths.Expr) error {
 			return err
 		}
 	}
+	if !isSmallInt(int64(len(t.Kids))) {
+		return ErrTooLong
+	}
 	b.prog.asm(mkSmall(t.Op, len(t.Kids)))
 	return nil
 }
-- 
2.43.0


From 2daa48a40572520ee089c9bfbd785fb6df6ff6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 15/16] fix: jpath -l accepts lines longer than 64k

---
 cmd/jpath/jpath.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/jpath/jpath.go b/cmd/jpath/jpath.go
index 601cd9e..f0aee1b 100644
--- a/cmd/jpath/jpath.go
+++ b/cmd/jpath/jpath.go
@@ -7,6 +7,7 @@ import (
 	"flag"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 
@@ -95,6 +96,7 @@ func readValues(fd *os.File, jpath *jsonpath.JSONPath, enc *json.Encoder) error
 // readLines runs the JSONPath machine against JSON values, one per line, also producing the results on a single line (thus 1:1).
 func readLines(fd *os.File, jpath *jsonpath.JSONPath, enc *json.Encoder) error {
 	input := bufio.NewScanner(fd)
+	input.Buffer(nil, math.MaxInt) // no limit on line length
 	input.Split(bufio.ScanLines)
 	for lno := 1; input.Scan(); lno++ {
 		var root interface{}
-- 
2.43.0


From f7f817d9f8183e5184920fd573d3a19e2b41a6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 16/16] fix: jpath reports a failure to write its output

---
 cmd/jpath/jpath.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/jpath/jpath.go b/cmd/jpath/jpath.go
index f0aee1b..278cf21 100644
--- a/cmd/jpath/jpath.go
+++ b/cmd/jpath/jpath.go
@@ -25,7 +25,6 @@ func main() {
 		os.Exit(2)
 	}
 	stdout = bufio.NewWriter(os.Stdout)
-	defer stdout.Flush()
 	jexp := flag.Arg(0)
 	jpath, err := jsonpath.Compile(jexp)
 	if err != nil {
@@ -58,6 +57,9 @@ func main() {
 			errorf("%s", err.Error())
 		}
 	}
+	if err := stdout.Flush(); err != nil {
+		errorf("%s", err.Error())
+	}
 }
 
 func quote(s string) string {
-- 
2.43.0

