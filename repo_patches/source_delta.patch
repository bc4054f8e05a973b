From 6b6cc47f7fd65daf07f51aca45bb0607efe7d8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:08 +0000
Subject: [PATCH 01/53] fix: apply struct tips to types in a fixed order

The tips of the struct scope were appended to those of the type scope while
iterating over a map, so which of two matching entries was used changed from
run to run.
---
 translator/translator.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/translator/translator.go b/translator/translator.go
index d916d46..753b994 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -239,11 +239,12 @@ func getPtrTipRxs(tips PtrTips) (PtrTipRxMap, error) {
 				self:    spec.Self,
 			}
 			rxMap[scope] = append(rxMap[scope], specRx)
-			if scope == TipScopeStruct {
-				rxMap[TipScopeType] = append(rxMap[TipScopeType], specRx)
-			}
 		}
 	}
+	if specs := rxMap[TipScopeStruct]; len(specs) > 0 {
+		// struct tips are used for types too, after the tips for types
+		rxMap[TipScopeType] = append(rxMap[TipScopeType], specs...)
+	}
 	return rxMap, nil
 }
 
@@ -266,11 +267,12 @@ func getTypeTipRxs(tips TypeTips) (TypeTipRxMap, error) {
 				self:    spec.Self,
 			}
 			rxMap[scope] = append(rxMap[scope], specRx)
-			if scope == TipScopeStruct {
-				rxMap[TipScopeType] = append(rxMap[TipScopeType], specRx)
-			}
 		}
 	}
+	if specs := rxMap[TipScopeStruct]; len(specs) > 0 {
+		// struct tips are used for types too, after the tips for types
+		rxMap[TipScopeType] = append(rxMap[TipScopeType], specs...)
+	}
 	return rxMap, nil
 }
 
-- 
2.43.0


From c46da41eb0729d142337b8d3c054227bfddf5d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:56 +0000
Subject: [PATCH 02/53] fix: separate parameters correctly around an instance
 parameter

The separator was written after a parameter depending on the tip of the next
one, so an instance parameter in the middle of the list lost a comma, and a
second instance parameter disappeared from the wrapper although it is
still passed on.
---
 generator/gen_common.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/generator/gen_common.go b/generator/gen_common.go
index d744360..39ccbc9 100644
--- a/generator/gen_common.go
+++ b/generator/gen_common.go
@@ -136,12 +136,22 @@ func (gen *Generator) writeFunctionParams(wr io.Writer, funcName string, funcSpe
 	typeTipSpecRx, _ := gen.tr.TypeTipRx(tl.TipScopeFunction, funcName)
 
 	writeStartParams(wr)
+	var hasInst, hasParam bool
 	for i, param := range spec.Params {
 		ptrTip := ptrTipSpecRx.TipAt(i)
 
 		if ptrTip == tl.TipPtrInst {
-			continue
+			if !hasInst {
+				// written as the receiver
+				hasInst = true
+				continue
+			}
+			ptrTip = tl.TipPtrRef
+		}
+		if hasParam {
+			fmt.Fprintf(wr, ", ")
 		}
+		hasParam = true
 
 		if !ptrTip.IsValid() {
 			ptrTip = tl.TipPtrArr
@@ -158,10 +168,6 @@ func (gen *Generator) writeFunctionParams(wr io.Writer, funcName string, funcSpe
 		}
 
 		gen.writeFunctionParam(wr, param, ptrTip, typeTip)
-
-		if i < len(spec.Params)-1 && ptrTipSpecRx.TipAt(i+1) != tl.TipPtrInst {
-			fmt.Fprintf(wr, ", ")
-		}
 	}
 	writeEndParams(wr)
 }
-- 
2.43.0


From baeb337a869dad31b249c22b7a378e8a33743368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:54 +0000
Subject: [PATCH 03/53] fix: keep the value of macros and constants

A macro that could not be expanded and a constant with an initializer got the
address of a method for a value. Numeric literals lost their exponent (1E5),
their prefix (0X1F), or were converted to a type that cannot hold them (1.5L,
4294967296u). Evaluated strings were written without quotes.
---
 generator/gen_const.go   | 52 ++++++++++++++++++++++++++++++++++---
 translator/ast_walker.go |  2 +-
 translator/helpers.go    | 55 ++++++++++++++++++++++++++++++++--------
 translator/translator.go |  4 +--
 4 files changed, 96 insertions(+), 17 deletions(-)

diff --git a/generator/gen_const.go b/generator/gen_const.go
index ff1bd7f..750a5a0 100644
--- a/generator/gen_const.go
+++ b/generator/gen_const.go
@@ -4,9 +4,14 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
+	"math/big"
 	"path/filepath"
+	"strconv"
+	"strings"
 
 	tl "github.com/xlab/c-for-go/translator"
+	"modernc.org/cc/v4"
 )
 
 func (gen *Generator) writeDefinesGroup(wr io.Writer, defines []*tl.CDecl) (n int) {
@@ -19,11 +24,15 @@ func (gen *Generator) writeDefinesGroup(wr io.Writer, defines []*tl.CDecl) (n in
 		if decl.Value == nil && string(name) == decl.Expression {
 			continue
 		}
+		literal, ok := constLiteral(decl.Value)
+		if decl.Value != nil && !ok {
+			continue
+		}
 		fmt.Fprintf(wr, "// %s as defined in %s\n", name,
 			filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, decl.Name, decl.Position)))
 
-		if decl.Value != nil {
-			fmt.Fprintf(wr, "%s = %v", name, decl.Value)
+		if ok {
+			fmt.Fprintf(wr, "%s = %s", name, literal)
 		} else if len(decl.Expression) > 0 {
 			fmt.Fprintf(wr, "%s = %s", name, decl.Expression)
 		} else {
@@ -46,8 +55,8 @@ func (gen *Generator) writeConstDeclaration(wr io.Writer, decl *tl.CDecl) {
 		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, decl.Name, decl.Position)))
 	goSpec := gen.tr.TranslateSpec(decl.Spec)
 
-	if decl.Value != nil {
-		fmt.Fprintf(wr, "const %s %s = %v", declName, goSpec, decl.Value)
+	if literal, ok := constLiteral(decl.Value); ok && isConstType(goSpec, decl.Value) {
+		fmt.Fprintf(wr, "const %s %s = %s", declName, goSpec, literal)
 		return
 	} else if len(decl.Expression) > 0 {
 		fmt.Fprintf(wr, "const %s %s = %s", declName, goSpec, decl.Expression)
@@ -57,6 +66,41 @@ func (gen *Generator) writeConstDeclaration(wr io.Writer, decl *tl.CDecl) {
 	fmt.Fprintf(wr, "var %s %s", declName, goSpec)
 }
 
+// constLiteral returns the Go literal of an evaluated C constant,
+// false if it cannot be written as a Go constant.
+func constLiteral(v tl.Value) (string, bool) {
+	switch x := v.(type) {
+	case cc.Int64Value:
+		return strconv.FormatInt(int64(x), 10), true
+	case cc.UInt64Value:
+		return strconv.FormatUint(uint64(x), 10), true
+	case cc.Float64Value:
+		f := float64(x)
+		if math.IsInf(f, 0) || math.IsNaN(f) {
+			return "", false
+		}
+		return strconv.FormatFloat(f, 'g', -1, 64), true
+	case *cc.LongDoubleValue:
+		f := (*big.Float)(x)
+		if f.IsInf() {
+			return "", false
+		}
+		return f.Text('g', -1), true
+	case cc.StringValue:
+		return strconv.Quote(strings.TrimSuffix(string(x), "\x00")), true
+	}
+	return "", false
+}
+
+// isConstType checks that a Go constant of this type can hold the value.
+func isConstType(goSpec tl.GoTypeSpec, v tl.Value) bool {
+	if goSpec.Slices > 0 || goSpec.Pointers > 0 || len(goSpec.OuterArr) > 0 || len(goSpec.InnerArr) > 0 {
+		return false
+	}
+	_, isString := v.(cc.StringValue)
+	return isString == (goSpec.Base == "string") && goSpec.Base != "bool" && goSpec.Base != "unsafe.Pointer"
+}
+
 func (gen *Generator) expandEnumAnonymous(wr io.Writer, decl *tl.CDecl, namesSeen map[string]bool) {
 	var typeName []byte
 	var hasType bool
diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index d826c16..16e7302 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -58,7 +58,7 @@ func (t *Translator) walkDeclaration(d *cc.Declaration) (declared []*CDecl) {
 			decl := t.declarator(declr.Type(), identifierOf(declr.DirectDeclarator), declr.IsTypename(), declr.IsStatic(), declr.IsConst(), declr.Position())
 			init := list.InitDeclarator.Initializer
 			if init != nil && init.AssignmentExpression != nil {
-				decl.Value = init.AssignmentExpression.Value
+				decl.Value = init.AssignmentExpression.Value()
 				decl.Expression = blessName(init.Token.SrcStr())
 			}
 			t.registerTagsOf(decl)
diff --git a/translator/helpers.go b/translator/helpers.go
index 0989742..58b94ee 100644
--- a/translator/helpers.go
+++ b/translator/helpers.go
@@ -3,8 +3,10 @@ package translator
 import (
 	"bytes"
 	"fmt"
+	"math"
 	"path/filepath"
 	"regexp"
+	"strconv"
 	"strings"
 	"sync"
 
@@ -269,31 +271,54 @@ func readNumeric(v []rune) string {
 	unsigned := false
 	result := make([]rune, 0, len(v))
 
+	var isHex, isFloat bool
 	wrap := func() string {
+		num := string(result)
+		if isFloat {
+			// the suffix only selects the C type
+			return num
+		}
+		// the suffix gives the least type, a value that doesn't fit takes the next one
+		val, err := strconv.ParseUint(num, 0, 64)
 		switch {
+		case err == nil && unsigned && val > math.MaxUint32:
+			return "uint64(" + num + ")"
+		case err == nil && long && val > math.MaxInt64:
+			return "uint64(" + num + ")"
 		case unsigned && long:
-			return "uint64(" + string(result) + ")"
+			return "uint64(" + num + ")"
 		case unsigned:
-			return "uint32(" + string(result) + ")"
+			return "uint32(" + num + ")"
 		case long:
-			return "int64(" + string(result) + ")"
+			return "int64(" + num + ")"
 		default:
-			return string(result)
+			return num
 		}
 	}
 
-	var isHex bool
 	for _, r := range v {
 		switch r {
-		case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
+		case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '-', '+':
 			result = append(result, r)
-		case 'x':
+		case 'x', 'X':
 			isHex = true
 			result = append(result, r)
-		case '-', '+', '.', 'e', 'b':
+		case '.':
+			isFloat = true
 			result = append(result, r)
-		case 'A', 'B', 'C', 'D', 'E', 'F', 'a', 'c', 'd', 'f':
-			if isHex {
+		case 'e', 'E':
+			isFloat = isFloat || !isHex
+			result = append(result, r)
+		case 'p', 'P':
+			if !isHex {
+				return wrap()
+			}
+			isFloat = true
+			result = append(result, r)
+		case 'b', 'B':
+			result = append(result, r)
+		case 'A', 'C', 'D', 'F', 'a', 'c', 'd', 'f':
+			if isHex && !isExponent(result) {
 				result = append(result, r)
 			}
 		// c'mon, get some roman numerals here
@@ -309,3 +334,13 @@ func readNumeric(v []rune) string {
 	}
 	return wrap()
 }
+
+// isExponent checks if the hex value read so far has got a binary exponent.
+func isExponent(v []rune) bool {
+	for _, r := range v {
+		if r == 'p' || r == 'P' {
+			return true
+		}
+	}
+	return false
+}
diff --git a/translator/translator.go b/translator/translator.go
index 753b994..7ccf0cd 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -481,12 +481,12 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 			typecastValue = false
 		}
 		if !valid {
-			if macro.Type().Kind() == cc.InvalidKind {
+			if value := macro.Value(); value != nil && value != cc.Unknown {
 				// fallback to the evaluated value
 				t.defines = append(t.defines, &CDecl{
 					IsDefine: true,
 					Name:     name,
-					Value:    Value(macro.Value),
+					Value:    Value(value),
 					Position: macro.Position(),
 				})
 			}
-- 
2.43.0


From 56728acab55375367695e0cdfc7a37d1f84615d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:59 +0000
Subject: [PATCH 04/53] fix: bind a typecast in a macro to its operand

The typecast took everything up to the closing parenthesis with it, and
parentheses inside of it were dropped, so (num)(1+2)*3 became num(1+2*3).
Macros that name a type are left out.
---
 translator/translator.go | 51 +++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/translator/translator.go b/translator/translator.go
index 7ccf0cd..81ce5cd 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -417,10 +417,17 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 		exprParts := make([]string, 0, len(tokens))
 		valid := true
 
-		// TODO: some state machine
+		// a typecast binds to the operand that follows it, so every pending
+		// one is closed at the end of an operand of its nesting depth
 		needsTypecast := false
-		typecastValue := false
-		typecastValueParens := 0
+		depth := 0
+		var typecasts []int
+		closeTypecasts := func() {
+			for n := len(typecasts); n > 0 && typecasts[n-1] >= depth; n-- {
+				exprParts = append(exprParts, ")")
+				typecasts = typecasts[:n-1]
+			}
+		}
 
 		for _, token := range tokens {
 			src := token.SrcStr()
@@ -430,6 +437,7 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 				if _, ok := seen[src]; ok {
 					// const reference
 					exprParts = append(exprParts, string(t.TransformName(TargetConst, src, true)))
+					closeTypecasts()
 				} else if _, ok := t.typedefsSet[src]; ok {
 					// type reference
 					needsTypecast = true
@@ -440,45 +448,44 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 					break
 				}
 			default:
-				// TODO: state machine
 				const (
 					lparen = rune(40)
 					rparen = rune(41)
 				)
 				switch {
 				case needsTypecast && token.Ch == rparen:
-					typecastValue = true
 					needsTypecast = false
+					depth--
 					exprParts = append(exprParts, src+"(")
-				case typecastValue && token.Ch == lparen:
-					typecastValueParens++
-				case typecastValue && token.Ch == rparen:
-					if typecastValueParens == 0 {
-						typecastValue = false
-						exprParts = append(exprParts, ")"+src)
-					} else {
-						typecastValueParens--
-					}
-				default:
+					typecasts = append(typecasts, depth)
+				case token.Ch == lparen:
+					depth++
+					exprParts = append(exprParts, src)
+				case token.Ch == rparen:
+					depth--
+					exprParts = append(exprParts, src)
+					closeTypecasts()
+				case token.Ch == '+' || token.Ch == '-':
+					exprParts = append(exprParts, src)
+				case token.Ch == '~':
 					// somewhere in the world a kitten died because of this
-					if token.Ch == '~' {
-						src = "^"
-					}
+					exprParts = append(exprParts, "^")
+				default:
 					if runes := []rune(src); len(runes) > 0 && isNumeric(runes) {
 						// TODO(xlab): better const handling
 						src = readNumeric(runes)
 					}
 					exprParts = append(exprParts, src)
+					closeTypecasts()
 				}
 			}
 			if !valid {
 				break
 			}
 		}
-		if typecastValue {
-			// still in typecast value, need to close paren
-			exprParts = append(exprParts, ")")
-			typecastValue = false
+		if needsTypecast || len(typecasts) > 0 {
+			// names a type or has no operand
+			valid = false
 		}
 		if !valid {
 			if value := macro.Value(); value != nil && value != cc.Unknown {
-- 
2.43.0


From 6c380b90ac6f0a4b18ad22fc1b7e82c1e312f988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:20 +0000
Subject: [PATCH 05/53] fix: refer to constants and types by the names they are
 declared with

References in macro and enumeration expressions went through the public
rules, which the declarations of constants and types do not.
---
 translator/ast_walker.go | 2 +-
 translator/translator.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 16e7302..1ee7e2e 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -147,7 +147,7 @@ func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 					srcParts = append(srcParts, src)
 					switch token.Ch {
 					case rune(cc.IDENTIFIER):
-						exprParts = append(exprParts, string(t.TransformName(TargetConst, src, true)))
+						exprParts = append(exprParts, string(t.TransformName(TargetConst, src)))
 					default:
 						// TODO: state machine
 						const (
diff --git a/translator/translator.go b/translator/translator.go
index 81ce5cd..e1bbe26 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -436,12 +436,12 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 			case rune(cc.IDENTIFIER):
 				if _, ok := seen[src]; ok {
 					// const reference
-					exprParts = append(exprParts, string(t.TransformName(TargetConst, src, true)))
+					exprParts = append(exprParts, string(t.TransformName(TargetConst, src)))
 					closeTypecasts()
 				} else if _, ok := t.typedefsSet[src]; ok {
 					// type reference
 					needsTypecast = true
-					exprParts = append(exprParts, string(t.TransformName(TargetType, src, true)))
+					exprParts = append(exprParts, string(t.TransformName(TargetType, src)))
 				} else {
 					// an unresolved reference
 					valid = false
-- 
2.43.0


From 54627e654d6329a9a7c20e1c67e12f5beb57859c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:49 +0000
Subject: [PATCH 06/53] fix: leave expressions out that Go cannot express as a
 number

With the expand rule an enumerator with a typecast, sizeof, a comparison
or a reference to something that is not emitted was copied into the Go
constant; it gets its value now. Macros with such operators are treated
like those with unresolved references.
---
 translator/ast_walker.go | 58 +++++++++++-----------------------------
 translator/helpers.go    | 10 +++++++
 translator/translator.go |  2 ++
 3 files changed, 28 insertions(+), 42 deletions(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 1ee7e2e..444b63a 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -3,6 +3,7 @@ package translator
 import (
 	"fmt"
 	"strings"
+	"unicode"
 
 	"modernc.org/cc/v4"
 	"modernc.org/token"
@@ -136,61 +137,34 @@ func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 				exprParts := make([]string, 0, len(enTokens))
 				valid := true
 
-				// TODO: needsTypecast is never true here
-				// TODO: some state machine
-				needsTypecast := false
-				typecastValue := false
-				typecastValueParens := 0
-
 				for _, token := range enTokens {
 					src := token.SrcStr()
 					srcParts = append(srcParts, src)
 					switch token.Ch {
 					case rune(cc.IDENTIFIER):
+						// const reference
+						if _, ok := t.valueMap[src]; !ok || !t.IsAcceptableName(TargetConst, src) {
+							valid = false
+						}
 						exprParts = append(exprParts, string(t.TransformName(TargetConst, src)))
 					default:
-						// TODO: state machine
-						const (
-							lparen = rune(40)
-							rparen = rune(41)
-						)
+						runes := []rune(src)
 						switch {
-						case needsTypecast && token.Ch == rparen:
-							typecastValue = true
-							needsTypecast = false
-							exprParts = append(exprParts, src+"(")
-						case typecastValue && token.Ch == lparen:
-							typecastValueParens++
-						case typecastValue && token.Ch == rparen:
-							if typecastValueParens == 0 {
-								typecastValue = false
-								exprParts = append(exprParts, ")"+src)
-							} else {
-								typecastValueParens--
-							}
-						default:
+						case token.Ch == '~':
 							// somewhere in the world a helpless kitten died because of this
-							if token.Ch == '~' {
-								src = "^"
-							}
-							if runes := []rune(src); len(runes) > 0 && isNumeric(runes) {
-								// TODO(xlab): better const handling
-								src = readNumeric(runes)
-							}
-							exprParts = append(exprParts, src)
+							src = "^"
+						case len(runes) > 0 && isNumeric(runes):
+							// TODO(xlab): better const handling
+							src = readNumeric(runes)
+						case len(runes) > 0 && unicode.IsLetter(runes[0]), !isConstOperator(token.Ch):
+							// sizeof, a typecast or an operator Go has no integer for
+							valid = false
 						}
+						exprParts = append(exprParts, src)
 					}
-					if !valid {
-						break
-					}
-				}
-				if typecastValue {
-					// still in typecast value, need to close paren
-					exprParts = append(exprParts, ")")
-					typecastValue = false
 				}
 
-				if len(exprParts) > 0 {
+				if valid && len(exprParts) > 0 {
 					m.Expression = strings.Join(exprParts, " ")
 				} else {
 					m.Value = en.Value()
diff --git a/translator/helpers.go b/translator/helpers.go
index 58b94ee..5075dd1 100644
--- a/translator/helpers.go
+++ b/translator/helpers.go
@@ -10,6 +10,7 @@ import (
 	"strings"
 	"sync"
 
+	"modernc.org/cc/v4"
 	"modernc.org/token"
 )
 
@@ -344,3 +345,12 @@ func isExponent(v []rune) bool {
 	}
 	return false
 }
+
+// isConstOperator checks that Go has the same operator on integers, or that it is no operator.
+func isConstOperator(ch rune) bool {
+	switch ch {
+	case '!', '?', ':', '<', '>', ',', rune(cc.LEQ), rune(cc.GEQ), rune(cc.EQ), rune(cc.NEQ), rune(cc.ANDAND), rune(cc.OROR):
+		return false
+	}
+	return true
+}
diff --git a/translator/translator.go b/translator/translator.go
index e1bbe26..c4acff0 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -470,6 +470,8 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 				case token.Ch == '~':
 					// somewhere in the world a kitten died because of this
 					exprParts = append(exprParts, "^")
+				case !isConstOperator(token.Ch):
+					valid = false
 				default:
 					if runes := []rune(src); len(runes) > 0 && isNumeric(runes) {
 						// TODO(xlab): better const handling
-- 
2.43.0


From 198b98c4f5e789160c1b71346cc4ce21b60fb3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:00 +0000
Subject: [PATCH 07/53] fix: resolve what macros refer to

Macros over enumerators of typedef'd enumerations were left out, while
those referring to macros without a value, or to each other in a circle,
were emitted with references to constants that do not exist.
---
 translator/translator.go | 40 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/translator/translator.go b/translator/translator.go
index c4acff0..bfa4bdc 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -349,10 +349,13 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 
 	// traverse declared constants because macro can reference them,
 	// so we need to collect a map of valid references beforehand
-	for _, decl := range declares {
+	for _, decl := range append(append([]*CDecl{}, declares...), t.typedefs...) {
 		if t.IsTokenIgnored(decl.Position) {
 			continue
 		}
+		if decl.IsTypedef && !t.IsAcceptableName(TargetType, decl.Name) {
+			continue
+		}
 		if decl.Spec.Kind() == EnumKind {
 			enumMembers := decl.Spec.(*CEnumSpec).Members
 			for _, member := range enumMembers {
@@ -364,6 +367,13 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 		}
 	}
 
+	// macros each macro refers to
+	refs := make(map[string][]string)
+	enums := make(map[string]struct{}, len(seen))
+	for name := range seen {
+		enums[name] = struct{}{}
+	}
+
 	// double traverse because macros can depend on each other and the map
 	// brings a randomized order of them.
 	for _, macro := range defines {
@@ -436,6 +446,9 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 			case rune(cc.IDENTIFIER):
 				if _, ok := seen[src]; ok {
 					// const reference
+					if _, ok := enums[src]; !ok {
+						refs[name] = append(refs[name], src)
+					}
 					exprParts = append(exprParts, string(t.TransformName(TargetConst, src)))
 					closeTypecasts()
 				} else if _, ok := t.typedefsSet[src]; ok {
@@ -509,6 +522,31 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 			Position:   macro.Position(),
 		})
 	}
+
+	// leave out macros that refer to the ones without a value
+	known := make(map[string]struct{}, len(t.defines))
+	for n := -1; n != len(known); {
+		n = len(known)
+	next:
+		for _, decl := range t.defines {
+			if decl.Value == nil && len(decl.Expression) == 0 {
+				continue
+			}
+			for _, ref := range refs[decl.Name] {
+				if _, ok := known[ref]; !ok {
+					continue next
+				}
+			}
+			known[decl.Name] = struct{}{}
+		}
+	}
+	resolved := t.defines[:0]
+	for _, decl := range t.defines {
+		if _, ok := known[decl.Name]; ok || len(refs[decl.Name]) == 0 {
+			resolved = append(resolved, decl)
+		}
+	}
+	t.defines = resolved
 }
 
 func (t *Translator) resolveTypedefs(typedefs []*CDecl) {
-- 
2.43.0


From b2e3c1fee8582f86b69b7cd364b4d8791a1ae189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 08/53] fix: take constness of a pointer from what it points to

const char *p as a field or result became []byte and char *const p a string,
since the declarator is const only when the pointer itself is.
---
 generator/gen_const.go   | 2 +-
 translator/ast_walker.go | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/generator/gen_const.go b/generator/gen_const.go
index 750a5a0..2971af2 100644
--- a/generator/gen_const.go
+++ b/generator/gen_const.go
@@ -58,7 +58,7 @@ func (gen *Generator) writeConstDeclaration(wr io.Writer, decl *tl.CDecl) {
 	if literal, ok := constLiteral(decl.Value); ok && isConstType(goSpec, decl.Value) {
 		fmt.Fprintf(wr, "const %s %s = %s", declName, goSpec, literal)
 		return
-	} else if len(decl.Expression) > 0 {
+	} else if len(decl.Expression) > 0 && decl.Spec.GetPointers() == 0 {
 		fmt.Fprintf(wr, "const %s %s = %s", declName, goSpec, decl.Expression)
 		return
 	}
diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 444b63a..7568e6a 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -281,6 +281,8 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 	}
 	var isVoidPtr bool
 	for pointerType, ok := typ.(*cc.PointerType); ok; pointerType, ok = typ.(*cc.PointerType) {
+		// what counts is the type pointed to: const char *p but not char *const p
+		spec.Const = pointerType.Elem().Attributes().IsConst()
 		if next := pointerType.Elem(); next.Kind() == cc.Void {
 			isVoidPtr = true
 			spec.Base = "void*"
-- 
2.43.0


From 4e99c2aacc1bef94593275af227a4a0879aaf438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 09/53] fix: map complex types to the complex types of Go

The C front end names them complexfloat and complexdouble, which the type map
did not know, so the undeclared names were written into the Go code.
---
 translator/model_go_type.go | 2 +-
 translator/type_mapping.go  | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/translator/model_go_type.go b/translator/model_go_type.go
index 7845645..723f9e6 100644
--- a/translator/model_go_type.go
+++ b/translator/model_go_type.go
@@ -45,7 +45,7 @@ func (spec GoTypeSpec) IsPlainKind() bool {
 
 func (spec GoTypeSpec) IsPlain() bool {
 	switch spec.Base {
-	case "int", "byte", "rune", "float", "unsafe.Pointer", "bool":
+	case "int", "byte", "rune", "float", "complex", "unsafe.Pointer", "bool":
 		return true
 	case "string":
 		return false
diff --git a/translator/type_mapping.go b/translator/type_mapping.go
index 36f5563..ae5f84e 100644
--- a/translator/type_mapping.go
+++ b/translator/type_mapping.go
@@ -110,6 +110,10 @@ var builtinCTypeMap = CTypeMap{
 	CTypeSpec{Base: "double", Complex: true}: Complex128Spec,
 	// long complex double -> complex128
 	CTypeSpec{Base: "double", Long: true, Complex: true}: Complex128Spec,
+	// the same as the C front end names them
+	CTypeSpec{Base: "complexfloat", Complex: true}:              Complex64Spec,
+	CTypeSpec{Base: "complexdouble", Complex: true}:             Complex128Spec,
+	CTypeSpec{Base: "complexdouble", Long: true, Complex: true}: Complex128Spec,
 	// void* -> unsafe.Pointer
 	CTypeSpec{Base: "void*"}: UnsafePointerSpec,
 	// void* -> unsafe.Pointer
-- 
2.43.0


From 623d3df3350b61b0daf7aa585aa3a051e354eea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 10/53] fix: do not take a type without a typedef name for a
 named one

An accept rule that matches the empty string made the unnamed types accepted,
so that const char * became []string.
---
 translator/translator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/translator/translator.go b/translator/translator.go
index bfa4bdc..f48ffb3 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -813,7 +813,7 @@ func (t *Translator) TranslateSpec(spec CType, tips ...Tip) GoTypeSpec {
 				}
 			}
 			if typeTip != TipTypePlain {
-				if t.IsAcceptableName(TargetType, typeSpec.Raw) {
+				if len(typeSpec.Raw) > 0 && t.IsAcceptableName(TargetType, typeSpec.Raw) {
 					gospec.Raw = string(t.TransformName(TargetType, typeSpec.Raw))
 					if gospec.Base != "unsafe.Pointer" {
 						gospec.splitPointers(ptrTip, typeSpec.Pointers)
@@ -868,7 +868,7 @@ func (t *Translator) TranslateSpec(spec CType, tips ...Tip) GoTypeSpec {
 						}
 					}
 					if typeTip != TipTypePlain {
-						if t.IsAcceptableName(TargetType, typeSpec.Raw) {
+						if len(typeSpec.Raw) > 0 && t.IsAcceptableName(TargetType, typeSpec.Raw) {
 							gospec.Raw = string(t.TransformName(TargetType, typeSpec.Raw))
 							if gospec.Base != "unsafe.Pointer" {
 								gospec.Pointers = 0
@@ -881,7 +881,7 @@ func (t *Translator) TranslateSpec(spec CType, tips ...Tip) GoTypeSpec {
 				}
 			}
 		}
-		if t.IsAcceptableName(TargetType, typeSpec.Raw) {
+		if len(typeSpec.Raw) > 0 && t.IsAcceptableName(TargetType, typeSpec.Raw) {
 			wrapper.Raw = string(t.TransformName(TargetType, typeSpec.Raw))
 		}
 		wrapper.Base = string(t.TransformName(TargetType, lookupSpec.Base))
-- 
2.43.0


From 601a4e0a7c0ca1b9c8aa2e34d9e99addbd7aee4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:52 +0000
Subject: [PATCH 11/53] fix: count in the pointers under a typedef only where
 it is used

A struct used by its tag lost the pointers of whichever typedef was known for
the tag, down to a wrap around of the count, and handle types lost the name
they are declared by.
---
 translator/ast_walker.go | 24 +++++++++++--
 translator/translator.go | 76 ++++++++++++++++++++++------------------
 2 files changed, 64 insertions(+), 36 deletions(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 7568e6a..ead1d06 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -31,7 +31,7 @@ func (t *Translator) walkExternalDeclaration(d *cc.ExternalDeclaration) {
 		}
 		if decl.IsTypedef {
 			t.typedefs = append(t.typedefs, decl)
-			t.typedefsSet[decl.Name] = struct{}{}
+			t.typedefsSet[decl.Name] = decl
 			return
 		}
 		t.declares = append(t.declares, decl)
@@ -40,7 +40,7 @@ func (t *Translator) walkExternalDeclaration(d *cc.ExternalDeclaration) {
 		for _, decl := range declares {
 			if decl.IsTypedef {
 				t.typedefs = append(t.typedefs, decl)
-				t.typedefsSet[decl.Name] = struct{}{}
+				t.typedefsSet[decl.Name] = decl
 				continue
 			}
 			t.declares = append(t.declares, decl)
@@ -99,6 +99,10 @@ func (t *Translator) declarator(typ cc.Type, name string, isTypedef bool, isStat
 		IsStatic:  isStatic,
 		Position:  position,
 	}
+	if structSpec, ok := decl.Spec.(*CStructSpec); ok && isTypedef && (structSpec.IsUnion || structSpec.IsComplete()) {
+		// what gets declared is the struct, even if the typedef is a pointer to it
+		structSpec.Pointers = 0
+	}
 	return decl
 }
 
@@ -279,6 +283,7 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 			spec.AddOuterArr(uint64(size))
 		}
 	}
+	handle := typ
 	var isVoidPtr bool
 	for pointerType, ok := typ.(*cc.PointerType); ok; pointerType, ok = typ.(*cc.PointerType) {
 		// what counts is the type pointed to: const char *p but not char *const p
@@ -385,6 +390,10 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 		s := t.structSpec(spec, typ, deep+1)
 		if !isRet {
 			s.Typedef = typedefNameOf(typ)
+			if structType, ok := typ.(*cc.StructType); ok && structType.NumFields() == 0 && len(spec.InnerArr) == 0 {
+				// the type is known by its handles only
+				s.Typedef = typedefNameOf(handle)
+			}
 		}
 		return s
 	case cc.Function:
@@ -399,6 +408,10 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 					s.Typedef = retTypedef
 				}
 				if s.Return != nil {
+					if structSpec, ok := s.Return.(*CStructSpec); ok && (structSpec.IsUnion || structSpec.IsComplete()) {
+						// the typedef of the struct, not of a pointer to it
+						retTypedef = typedefNameOf(pointeeOf(funcType.Result()))
+					}
 					s.Return.SetRaw(retTypedef)
 				}
 			}
@@ -447,6 +460,13 @@ func typedefNameOf(typ cc.Type) string {
 	return name
 }
 
+func pointeeOf(typ cc.Type) cc.Type {
+	for pointerType, ok := typ.(*cc.PointerType); ok; pointerType, ok = typ.(*cc.PointerType) {
+		typ = pointerType.Elem()
+	}
+	return typ
+}
+
 func identifierOf(dd *cc.DirectDeclarator) string {
 	if dd == nil {
 		return ""
diff --git a/translator/translator.go b/translator/translator.go
index f48ffb3..13ab693 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -35,7 +35,7 @@ type Translator struct {
 	typedefs []*CDecl
 	declares []*CDecl
 
-	typedefsSet    map[string]struct{}
+	typedefsSet    map[string]*CDecl
 	typedefKinds   map[string]CTypeKind
 	transformCache *NameTransformCache
 
@@ -138,7 +138,7 @@ func New(cfg *Config) (*Translator, error) {
 		exprMap:            make(map[string]string),
 		tagMap:             make(map[string]*CDecl),
 		lenFields:          cfg.LenFields,
-		typedefsSet:        make(map[string]struct{}),
+		typedefsSet:        make(map[string]*CDecl),
 		typedefKinds:       make(map[string]CTypeKind),
 		ignoredFiles:       make(map[string]struct{}),
 		transformCache:     &NameTransformCache{},
@@ -925,29 +925,13 @@ func (t *Translator) TranslateSpec(spec CType, tips ...Tip) GoTypeSpec {
 			InnerArr: spec.InnerArrays(),
 		}
 		switch wrapper.Kind {
-		case OpaqueStructKind, StructKind, FunctionKind, UnionKind:
-			decl, tagKnown := t.tagMap[spec.GetTag()]
-			if !tagKnown && wrapper.Kind == FunctionKind {
-				// another try using the type
-				fspec := spec.(*CFunctionSpec)
-				decl, tagKnown = t.tagMap[fspec.Typedef]
+		case OpaqueStructKind, StructKind, UnionKind:
+			if decl, tagKnown := t.tagMap[spec.GetTag()]; tagKnown && !decl.Spec.IsOpaque() {
+				wrapper.Kind = StructKind
 			}
-			if tagKnown {
-				if !decl.Spec.IsOpaque() {
-					wrapper.Kind = StructKind
-				}
-				// count in the pointers of the base type under typedef
-				// e.g. typedef struct a_T* a; int f(a *arg);
-				// -> go_F(C.a *arg) but not go_F(C.a **arg) because of residual pointers.
-				wrapper.Pointers = 0
-				wrapper.splitPointers(ptrTip, spec.GetPointers()-decl.Spec.GetPointers())
-			} else {
-				wrapper.splitPointers(ptrTip, spec.GetPointers())
-			}
-		default:
-			wrapper.splitPointers(ptrTip, spec.GetPointers())
 		}
-		if base := spec.GetBase(); len(base) > 0 {
+		wrapper.splitPointers(ptrTip, t.residualPointers(spec))
+		if base := t.declaredName(spec); len(base) > 0 {
 			wrapper.Raw = string(t.TransformName(TargetType, base))
 		} else if cgoName := spec.CGoName(); len(cgoName) > 0 {
 			wrapper.Raw = "C." + cgoName
@@ -956,28 +940,52 @@ func (t *Translator) TranslateSpec(spec CType, tips ...Tip) GoTypeSpec {
 	}
 }
 
+// declaredName returns the name the type of the spec is declared by, which is
+// a typedef name if there is one for the tag of a complete struct or union.
+func (t *Translator) declaredName(spec CType) string {
+	structSpec, ok := spec.(*CStructSpec)
+	if !ok || len(structSpec.Typedef) > 0 {
+		return spec.GetBase()
+	}
+	decl, tagKnown := t.tagMap[structSpec.Tag]
+	if tagKnown && decl.IsTypedef && (structSpec.IsUnion || decl.Spec.IsComplete()) &&
+		t.IsAcceptableName(TargetType, decl.Name) {
+		return decl.Name
+	}
+	return spec.GetBase()
+}
+
 func (t *Translator) NormalizeSpecPointers(spec CType) CType {
 	if spec.Kind() == OpaqueStructKind {
-		decl, tagKnown := t.tagMap[spec.GetTag()]
-		if tagKnown {
-			spec := spec.Copy()
-			spec.SetPointers(spec.GetPointers() - decl.Spec.GetPointers())
-			return spec
-		}
+		residual := t.residualPointers(spec)
+		spec := spec.Copy()
+		spec.SetPointers(residual)
+		return spec
 	}
 	return spec
 }
 
+// residualPointers returns the pointers that are left when the ones under
+// the typedef the spec is named by are counted in,
+// e.g. typedef struct a_T* a; int f(a *arg);
+// -> go_F(C.a *arg) but not go_F(C.a **arg).
+func (t *Translator) residualPointers(spec CType) uint8 {
+	pointers := spec.GetPointers()
+	if structSpec, ok := spec.(*CStructSpec); ok {
+		decl, known := t.typedefsSet[structSpec.Typedef]
+		if known && decl.Spec.GetPointers() <= pointers {
+			pointers -= decl.Spec.GetPointers()
+		}
+	}
+	return pointers
+}
+
 func (t *Translator) CGoSpec(spec CType, asArg bool) CGoSpec {
 	cgo := CGoSpec{
-		Pointers: spec.GetPointers(),
+		Pointers: t.residualPointers(spec),
 		OuterArr: spec.OuterArrays(),
 		InnerArr: spec.InnerArrays(),
 	}
-	if decl, ok := t.tagMap[spec.GetTag()]; ok {
-		// count in the pointers of the base type under typedef
-		cgo.Pointers = spec.GetPointers() - decl.Spec.GetPointers()
-	}
 	if typ, ok := spec.(*CTypeSpec); ok {
 		if typ.Base == "void*" {
 			if len(typ.Raw) == 0 {
-- 
2.43.0


From ef47b787ce3438e7925d2e284bc198da17752b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:39 +0000
Subject: [PATCH 12/53] fix: keep the levels of an array's elements inside of
 the array

int **x[7] became [][7]*int32.
---
 translator/translator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/translator/translator.go b/translator/translator.go
index 13ab693..ae8e915 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -856,6 +856,11 @@ func (t *Translator) TranslateSpec(spec CType, tips ...Tip) GoTypeSpec {
 					gospec.Pointers += wrapper.Pointers
 					gospec.OuterArr.Prepend(wrapper.OuterArr)
 					gospec.InnerArr.Prepend(wrapper.InnerArr)
+					if len(gospec.OuterArr) > 0 {
+						// the levels are inside of the array
+						gospec.Pointers += gospec.Slices
+						gospec.Slices = 0
+					}
 					if gospec.Kind == TypeKind {
 						if gospec.IsPlain() {
 							gospec.Kind = PlainTypeKind
-- 
2.43.0


From 6839808447a440325b2180348ead6afc4655c53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 13/53] fix: keep the names of a wrapper's parameters and
 variables distinct

The names of the C side were made distinct from the C names of the parameters only, so they collided with
Go names. A parameter of a function type was declared under another name than the one it was used by.
---
 generator/gen_bindings.go  | 19 +++-----------
 generator/gen_callbacks.go | 36 ++++++--------------------
 generator/gen_common.go    | 53 +++++++++++++++++++++++++++++++++-----
 generator/gen_declares.go  |  3 +--
 translator/ast_walker.go   | 16 ++++++++----
 5 files changed, 70 insertions(+), 57 deletions(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index aa16b97..63c9300 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -930,12 +930,8 @@ func (gen *Generator) createProxies(funcName string, funcSpec tl.CType) (from, t
 	from = make([]proxyDecl, len(spec.Params))
 	to = make([]proxyDecl, 0, len(spec.Params))
 
-	cNamesSeen := make(map[string]struct{}, len(spec.Params))
-	for _, param := range spec.Params {
-		if len(param.Name) > 0 {
-			cNamesSeen[param.Name] = struct{}{}
-		}
-	}
+	refNames := gen.paramNames(spec)
+	names := proxyNames(refNames)
 
 	ptrTipRx, typeTipRx, memTipRx := gen.tr.TipRxsForSpec(tl.TipScopeFunction, funcName, funcSpec)
 	for i, param := range spec.Params {
@@ -944,19 +940,10 @@ func (gen *Generator) createProxies(funcName string, funcSpec tl.CType) (from, t
 		typeTip := typeTipRx.TipAt(i)
 		goSpec = gen.tr.TranslateSpec(param.Spec, ptrTip, typeTip)
 		cgoSpec := gen.tr.CGoSpec(param.Spec, true)
-		const public = false
-		refName := string(gen.tr.TransformName(tl.TargetType, param.Name, public))
+		refName, name := refNames[i], names[i]
 		fromBuf := new(bytes.Buffer)
 		toBuf := new(bytes.Buffer)
 
-		name := "c" + refName
-		_, seen := cNamesSeen[name]
-		for seen {
-			name = "c" + name
-			_, seen = cNamesSeen[name]
-		}
-		cNamesSeen[name] = struct{}{}
-
 		argTip := memTipRx.TipAt(i)
 		if !argTip.IsValid() {
 			argTip = gen.MemTipOf(param)
diff --git a/generator/gen_callbacks.go b/generator/gen_callbacks.go
index 658ff53..e1a067d 100644
--- a/generator/gen_callbacks.go
+++ b/generator/gen_callbacks.go
@@ -25,6 +25,7 @@ func (gen *Generator) getCallbackHelpers(goFuncName, cFuncName string, spec tl.C
 	var params []string
 	var paramNames []string
 	var paramNamesGo []string
+	goNames := gen.paramNames(funcSpec)
 	for i, param := range funcSpec.Params {
 		if len(param.Name) == 0 {
 			param.Name = fmt.Sprintf("arg%d", i)
@@ -32,8 +33,7 @@ func (gen *Generator) getCallbackHelpers(goFuncName, cFuncName string, spec tl.C
 		paramSpec := gen.tr.NormalizeSpecPointers(param.Spec)
 		params = append(params, fmt.Sprintf("%s %s", paramSpec.AtLevel(0), param.Name))
 		paramNames = append(paramNames, param.Name)
-		goName := checkName(gen.tr.TransformName(tl.TargetType, param.Name, false))
-		paramNamesGo = append(paramNamesGo, fmt.Sprintf("%s%2x", goName, crc))
+		paramNamesGo = append(paramNamesGo, fmt.Sprintf("%s%2x", goNames[i], crc))
 	}
 	paramList := strings.Join(params, ", ")
 	paramNamesList := strings.Join(paramNames, ", ")
@@ -131,7 +131,7 @@ func (gen *Generator) getCallbackHelpers(goFuncName, cFuncName string, spec tl.C
 	fmt.Fprintf(buf, "if %sFunc != nil {\n", cbGoName)
 	buf.WriteString(proxySrc.String())
 	if funcSpec.Return != nil {
-		ret := fmt.Sprintf("ret%2x", crc)
+		ret := fmt.Sprintf("__ret%2x", crc)
 		fmt.Fprintf(buf, "%s := %sFunc(%s)\n", ret, cbGoName, paramNamesGoList)
 		ptrTipRx, typeTipRx, memTipRx := gen.tr.TipRxsForSpec(tl.TipScopeFunction, cFuncName, funcSpec)
 		retGoSpec := gen.tr.TranslateSpec(funcSpec.Return, ptrTipRx.Self(), typeTipRx.Self())
@@ -171,16 +171,12 @@ func (gen *Generator) writeCallbackProxyFunc(wr io.Writer, decl *tl.CDecl) {
 
 func (gen *Generator) writeCallbackProxyFuncParams(wr io.Writer, spec tl.CType) {
 	funcSpec := spec.(*tl.CFunctionSpec)
-	const public = false
+	names := proxyNames(gen.paramNames(funcSpec))
 
 	writeStartParams(wr)
 	for i, param := range funcSpec.Params {
-		declName := checkName(gen.tr.TransformName(tl.TargetType, param.Name, public))
-		if len(param.Name) == 0 {
-			declName = []byte(fmt.Sprintf("arg%d", i))
-		}
 		cgoSpec := gen.tr.CGoSpec(param.Spec, true)
-		fmt.Fprintf(wr, "c%s %s", declName, cgoSpec.AtLevel(0))
+		fmt.Fprintf(wr, "%s %s", names[i], cgoSpec.AtLevel(0))
 
 		if i < len(funcSpec.Params)-1 {
 			fmt.Fprintf(wr, ", ")
@@ -193,12 +189,8 @@ func (gen *Generator) createCallbackProxies(funcName string, funcSpec tl.CType)
 	spec := funcSpec.(*tl.CFunctionSpec)
 	to = make([]proxyDecl, 0, len(spec.Params))
 
-	cNamesSeen := make(map[string]struct{}, len(spec.Params))
-	for _, param := range spec.Params {
-		if len(param.Name) > 0 {
-			cNamesSeen[param.Name] = struct{}{}
-		}
-	}
+	refNames := gen.paramNames(spec)
+	names := proxyNames(refNames)
 
 	crc := getRefCRC(funcSpec)
 	ptrTipRx, typeTipRx, memTipRx := gen.tr.TipRxsForSpec(tl.TipScopeFunction, funcName, funcSpec)
@@ -208,21 +200,9 @@ func (gen *Generator) createCallbackProxies(funcName string, funcSpec tl.CType)
 		typeTip := typeTipRx.TipAt(i)
 		goSpec = gen.tr.TranslateSpec(param.Spec, ptrTip, typeTip)
 		cgoSpec := gen.tr.CGoSpec(param.Spec, true)
-		const public = false
-		refName := string(gen.tr.TransformName(tl.TargetType, param.Name, public))
-		if len(param.Name) == 0 {
-			refName = fmt.Sprintf("arg%d", i)
-		}
+		refName, cname := refNames[i], names[i]
 		toBuf := new(bytes.Buffer)
 
-		cname := "c" + refName
-		_, seen := cNamesSeen[cname]
-		for seen {
-			cname = "c" + cname
-			_, seen = cNamesSeen[cname]
-		}
-		cNamesSeen[cname] = struct{}{}
-
 		refName = fmt.Sprintf("%s%2x", refName, crc)
 		toProxy, _ := gen.proxyCallbackArgToGo(memTipRx.TipAt(i), refName, cname, goSpec, cgoSpec)
 		if len(toProxy) > 0 {
diff --git a/generator/gen_common.go b/generator/gen_common.go
index 39ccbc9..c179925 100644
--- a/generator/gen_common.go
+++ b/generator/gen_common.go
@@ -53,7 +53,7 @@ func (gen *Generator) writeStructMembers(wr io.Writer, structName string, spec t
 			typeRef := gen.tr.TranslateSpec(member.Spec, ptrTip, typeTip).String()
 			fmt.Fprintf(wr, "%s %s", declName, typeRef)
 		case tl.FunctionKind:
-			gen.writeFunctionAsArg(wr, member, ptrTip, typeTip, public)
+			gen.writeFunctionAsArg(wr, member, string(declName), ptrTip, typeTip, public)
 		}
 		writeSpace(wr, 1)
 	}
@@ -75,6 +75,7 @@ func (gen *Generator) writeInstanceObjectParam(wr io.Writer, funcName string, fu
 	spec := funcSpec.(*tl.CFunctionSpec)
 	ptrTipSpecRx, _ := gen.tr.PtrTipRx(tl.TipScopeFunction, funcName)
 	typeTipSpecRx, _ := gen.tr.TypeTipRx(tl.TipScopeFunction, funcName)
+	names := gen.paramNames(spec)
 
 	for i, param := range spec.Params {
 		ptrTip := ptrTipSpecRx.TipAt(i)
@@ -96,17 +97,56 @@ func (gen *Generator) writeInstanceObjectParam(wr io.Writer, funcName string, fu
 
 		writeSpace(wr, 1)
 		writeStartParams(wr)
-		gen.writeFunctionParam(wr, param, ptrTip, typeTip)
+		gen.writeFunctionParam(wr, param, names[i], ptrTip, typeTip)
 		writeEndParams(wr)
 
 		break
 	}
 }
 
-func (gen *Generator) writeFunctionParam(wr io.Writer, param *tl.CDecl, ptrTip tl.Tip, typeTip tl.Tip) {
+// paramNames returns the Go names of the parameters, all of them are distinct.
+func (gen *Generator) paramNames(spec *tl.CFunctionSpec) []string {
+	const public = false
+
+	names := make([]string, len(spec.Params))
+	seen := map[string]bool{"__ret": true, "__v": true}
+	for i, param := range spec.Params {
+		name := string(gen.tr.TransformName(tl.TargetType, param.Name, public))
+		if len(name) == 0 {
+			name = fmt.Sprintf("arg%d", i)
+		}
+		for seen[name] {
+			name += "_"
+		}
+		seen[name] = true
+		names[i] = name
+	}
+	return names
+}
+
+// proxyNames returns the names of the variables that stand for the C side of the parameters,
+// distinct from the names of the parameters and of the other variables of a wrapper.
+func proxyNames(paramNames []string) []string {
+	names := make([]string, len(paramNames))
+	seen := map[string]bool{"__ret": true, "__v": true}
+	for _, name := range paramNames {
+		seen[name] = true
+	}
+	for i, name := range paramNames {
+		name = "c" + name
+		for seen[name] || seen[name+"AllocMap"] {
+			name = "c" + name
+		}
+		seen[name] = true
+		seen[name+"AllocMap"] = true
+		names[i] = name
+	}
+	return names
+}
+
+func (gen *Generator) writeFunctionParam(wr io.Writer, param *tl.CDecl, declName string, ptrTip tl.Tip, typeTip tl.Tip) {
 	const public = false
 
-	declName := checkName(gen.tr.TransformName(tl.TargetType, param.Name, public))
 	switch param.Spec.Kind() {
 	case tl.TypeKind:
 		goSpec := gen.tr.TranslateSpec(param.Spec, ptrTip, typeTip)
@@ -126,7 +166,7 @@ func (gen *Generator) writeFunctionParam(wr io.Writer, param *tl.CDecl, ptrTip t
 		typeRef := gen.tr.TranslateSpec(param.Spec, ptrTip, typeTip).String()
 		fmt.Fprintf(wr, "%s %s", declName, typeRef)
 	case tl.FunctionKind:
-		gen.writeFunctionAsArg(wr, param, ptrTip, typeTip, public)
+		gen.writeFunctionAsArg(wr, param, declName, ptrTip, typeTip, public)
 	}
 }
 
@@ -134,6 +174,7 @@ func (gen *Generator) writeFunctionParams(wr io.Writer, funcName string, funcSpe
 	spec := funcSpec.(*tl.CFunctionSpec)
 	ptrTipSpecRx, _ := gen.tr.PtrTipRx(tl.TipScopeFunction, funcName)
 	typeTipSpecRx, _ := gen.tr.TypeTipRx(tl.TipScopeFunction, funcName)
+	names := gen.paramNames(spec)
 
 	writeStartParams(wr)
 	var hasInst, hasParam bool
@@ -167,7 +208,7 @@ func (gen *Generator) writeFunctionParams(wr io.Writer, funcName string, funcSpe
 			}
 		}
 
-		gen.writeFunctionParam(wr, param, ptrTip, typeTip)
+		gen.writeFunctionParam(wr, param, names[i], ptrTip, typeTip)
 	}
 	writeEndParams(wr)
 }
diff --git a/generator/gen_declares.go b/generator/gen_declares.go
index 8bb1c8c..99c5767 100644
--- a/generator/gen_declares.go
+++ b/generator/gen_declares.go
@@ -46,12 +46,11 @@ func (gen *Generator) writeEnumDeclaration(wr io.Writer, decl *tl.CDecl,
 	writeSpace(wr, 1)
 }
 
-func (gen *Generator) writeFunctionAsArg(wr io.Writer, decl *tl.CDecl,
+func (gen *Generator) writeFunctionAsArg(wr io.Writer, decl *tl.CDecl, goName string,
 	ptrTip, typeTip tl.Tip, public bool) {
 
 	var returnRef string
 	cName, _ := getName(decl)
-	goName := checkName(gen.tr.TransformName(tl.TargetFunction, cName, public))
 	spec := decl.Spec.(*tl.CFunctionSpec)
 	if len(spec.Typedef) > 0 {
 		funcName := checkName(gen.tr.TransformName(tl.TargetType, spec.Typedef, true))
diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index ead1d06..81b27e8 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -258,7 +258,7 @@ func (t *Translator) functionSpec(base *CTypeSpec, typ cc.Type, name string, isC
 					isParamConst = p.Declarator.IsConst()
 				}
 				spec.Params = append(spec.Params, &CDecl{
-					Name:     paramName(i, p),
+					Name:     paramName(i, params),
 					Spec:     t.typeSpec(p.Type(), name, deep+1, isParamConst, false),
 					Position: p.Declarator.Position(),
 				})
@@ -424,11 +424,17 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 	return spec
 }
 
-func paramName(n int, p *cc.Parameter) string {
-	if len(p.Name()) == 0 {
-		return fmt.Sprintf("arg%d", n)
+func paramName(n int, params []*cc.Parameter) string {
+	if name := params[n].Name(); len(name) > 0 {
+		return blessName(name)
 	}
-	return blessName(p.Name())
+	name := fmt.Sprintf("arg%d", n)
+	for i := 0; i < len(params); i++ {
+		if params[i].Name() == name {
+			name, i = "_"+name, -1
+		}
+	}
+	return name
 }
 
 func memberName(n int, f *cc.Field) string {
-- 
2.43.0


From 81665d43351ed229830ef1078ff9522e270fc08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 14/53] fix: convert a parameter by the tips it is declared
 with

The receiver chosen by an inst tip is declared as by a ref tip and the type tip may come from the type itself;
the conversion used neither.
---
 generator/gen_bindings.go |  5 ++++-
 generator/gen_common.go   | 34 ++++++++++++++++------------------
 2 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index 63c9300..a4b8815 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -937,7 +937,10 @@ func (gen *Generator) createProxies(funcName string, funcSpec tl.CType) (from, t
 	for i, param := range spec.Params {
 		var goSpec tl.GoTypeSpec
 		ptrTip := ptrTipRx.TipAt(i)
-		typeTip := typeTipRx.TipAt(i)
+		if ptrTip == tl.TipPtrInst {
+			ptrTip = tl.TipPtrRef
+		}
+		typeTip := gen.paramTypeTip(typeTipRx, i, param)
 		goSpec = gen.tr.TranslateSpec(param.Spec, ptrTip, typeTip)
 		cgoSpec := gen.tr.CGoSpec(param.Spec, true)
 		refName, name := refNames[i], names[i]
diff --git a/generator/gen_common.go b/generator/gen_common.go
index c179925..83898da 100644
--- a/generator/gen_common.go
+++ b/generator/gen_common.go
@@ -71,6 +71,20 @@ func (gen *Generator) writeStructMembers(wr io.Writer, structName string, spec t
 	fmt.Fprintf(wr, "allocs%2x interface{}\n", crc)
 }
 
+// paramTypeTip returns the type tip of the parameter at the position.
+func (gen *Generator) paramTypeTip(typeTipRx tl.TipSpecRx, i int, param *tl.CDecl) tl.Tip {
+	typeTip := typeTipRx.TipAt(i)
+	if !typeTip.IsValid() {
+		// try to use type tip for the type itself
+		if tip, ok := gen.tr.TypeTipRx(tl.TipScopeType, param.Spec.CGoName()); ok {
+			if tip := tip.Self(); tip.IsValid() {
+				typeTip = tip
+			}
+		}
+	}
+	return typeTip
+}
+
 func (gen *Generator) writeInstanceObjectParam(wr io.Writer, funcName string, funcSpec tl.CType) {
 	spec := funcSpec.(*tl.CFunctionSpec)
 	ptrTipSpecRx, _ := gen.tr.PtrTipRx(tl.TipScopeFunction, funcName)
@@ -85,15 +99,7 @@ func (gen *Generator) writeInstanceObjectParam(wr io.Writer, funcName string, fu
 		}
 
 		ptrTip = tl.TipPtrRef
-		typeTip := typeTipSpecRx.TipAt(i)
-		if !typeTip.IsValid() {
-			// try to use type tip for the type itself
-			if tip, ok := gen.tr.TypeTipRx(tl.TipScopeType, param.Spec.CGoName()); ok {
-				if tip := tip.Self(); tip.IsValid() {
-					typeTip = tip
-				}
-			}
-		}
+		typeTip := gen.paramTypeTip(typeTipSpecRx, i, param)
 
 		writeSpace(wr, 1)
 		writeStartParams(wr)
@@ -198,15 +204,7 @@ func (gen *Generator) writeFunctionParams(wr io.Writer, funcName string, funcSpe
 			ptrTip = tl.TipPtrArr
 		}
 
-		typeTip := typeTipSpecRx.TipAt(i)
-		if !typeTip.IsValid() {
-			// try to use type tip for the type itself
-			if tip, ok := gen.tr.TypeTipRx(tl.TipScopeType, param.Spec.CGoName()); ok {
-				if tip := tip.Self(); tip.IsValid() {
-					typeTip = tip
-				}
-			}
-		}
+		typeTip := gen.paramTypeTip(typeTipSpecRx, i, param)
 
 		gen.writeFunctionParam(wr, param, names[i], ptrTip, typeTip)
 	}
-- 
2.43.0


From 7249f26ab638d8589234f52543e472f4b03bc029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 15/53] fix: represent an enumeration that has a tag only

A parameter of type enum E got the Go type C.enum_, which does not exist.
---
 translator/ast_walker.go | 2 ++
 translator/model_enum.go | 6 +++++-
 translator/translator.go | 9 +++++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 81b27e8..ac95d36 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -125,6 +125,8 @@ func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 		InnerArr: base.InnerArr,
 	}
 	if enumType, ok := typ.(*cc.EnumType); ok {
+		enumTag := enumType.Tag()
+		spec.EnumTag = enumTag.SrcStr()
 		list := enumType.Enumerators()
 		for _, en := range list {
 			name := blessName(en.Token.SrcStr())
diff --git a/translator/model_enum.go b/translator/model_enum.go
index 9b6467f..e5b4462 100644
--- a/translator/model_enum.go
+++ b/translator/model_enum.go
@@ -8,6 +8,7 @@ import (
 
 type CEnumSpec struct {
 	Tag      string
+	EnumTag  string // the name following enum, if any
 	Typedef  string
 	Members  []*CDecl
 	Type     CTypeSpec
@@ -91,7 +92,10 @@ func (c *CEnumSpec) CGoName() string {
 	if len(c.Typedef) > 0 {
 		return c.Typedef
 	}
-	return "enum_" + c.Tag
+	if len(c.Tag) > 0 {
+		return "enum_" + c.Tag
+	}
+	return "enum_" + c.EnumTag
 }
 
 func (c *CEnumSpec) AddOuterArr(size uint64) {
diff --git a/translator/translator.go b/translator/translator.go
index ae8e915..3bab912 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -924,6 +924,15 @@ func (t *Translator) TranslateSpec(spec CType, tips ...Tip) GoTypeSpec {
 		wrapper.Base = "func"
 		return wrapper
 	default:
+		if enumSpec, ok := spec.(*CEnumSpec); ok && len(enumSpec.GetBase()) == 0 {
+			// no type is declared for it
+			return t.TranslateSpec(&CTypeSpec{
+				Base:     "int",
+				Pointers: enumSpec.Pointers,
+				OuterArr: enumSpec.OuterArr,
+				InnerArr: enumSpec.InnerArr,
+			}, tips...)
+		}
 		wrapper := GoTypeSpec{
 			Kind:     spec.Kind(),
 			OuterArr: spec.OuterArrays(),
-- 
2.43.0


From 33db5042968453c93cd4b096ed057954327fa7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 16/53] fix: never share a helper name between different types

unsigned char** and char** both used packSSByte, whose only definition takes one of them; names made of a
typedef name and of levels of indirection could coincide too. Define the sizes the pack helpers refer to.
---
 generator/gen_bindings.go | 24 ++++++++++++++++++++++--
 generator/generator.go    |  3 +++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index a4b8815..8f34f73 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -71,7 +71,23 @@ func getHelperName(goSpec tl.GoTypeSpec) string {
 	return buf.String()
 }
 
+// distinctName returns the name, with a suffix if it is already given to a helper for other types.
+func (gen *Generator) distinctName(name string, types string) string {
+	distinct := name
+	for n := 2; ; n++ {
+		prev, ok := gen.helperTypes[distinct]
+		if !ok {
+			gen.helperTypes[distinct] = types
+		}
+		if !ok || prev == types {
+			return distinct
+		}
+		distinct = fmt.Sprintf("%s_%d", name, n)
+	}
+}
+
 func (gen *Generator) getTypedHelperName(goBase string, spec tl.CGoSpec) string {
+	types := spec.String()
 	if strings.HasPrefix(spec.Base, "C.") {
 		spec.Base = spec.Base[2:]
 	}
@@ -95,7 +111,7 @@ func (gen *Generator) getTypedHelperName(goBase string, spec tl.CGoSpec) string
 	}
 	buf.Write(bytes.Title(specName))
 	buf.WriteString(strings.Title(goBase))
-	return buf.String()
+	return gen.distinctName(buf.String(), types)
 }
 
 type level struct {
@@ -418,6 +434,7 @@ func (gen *Generator) getUnpackHelper(goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec,
 	} else {
 		name += getHelperName(goSpec)
 	}
+	name = gen.distinctName(name, fmt.Sprint(goSpec, " ", cgoSpec))
 	code := new(bytes.Buffer)
 	fmt.Fprintf(code, "func %s(x %s) (unpacked %s, allocs *cgoAllocMap) {\n",
 		name, goSpecArg(goSpec, isArg), cgoSpecArg(cgoSpec, 0, isArg))
@@ -676,6 +693,7 @@ func (gen *Generator) getPackStringHelper(cgoSpec tl.CGoSpec) *Helper {
 
 func (gen *Generator) getPackHelper(memTip tl.Tip, goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec) *Helper {
 	name := "pack" + getHelperName(goSpec)
+	name = gen.distinctName(name, fmt.Sprint(goSpec, " ", cgoSpec, " ", memTip == tl.TipMemRaw))
 	code := new(bytes.Buffer)
 	var ref string
 	if len(goSpec.OuterArr) > 0 {
@@ -702,7 +720,9 @@ func (gen *Generator) getPackHelper(memTip tl.Tip, goSpec tl.GoTypeSpec, cgoSpec
 		ptrs := cgoSpec.PointersAtLevel(level)
 		if ptrs == 0 {
 			// whoa, we're dealing with a value
-			sizeConst = "sizeOf" + gen.getTypedHelperName("value", cgoSpec.SpecAtLevel(level))
+			levelSpec := cgoSpec.SpecAtLevel(level)
+			gen.submitHelper(gen.getAllocMemoryHelper(levelSpec))
+			sizeConst = "sizeOf" + gen.getTypedHelperName("value", levelSpec)
 		}
 		return sizeConst
 	}
diff --git a/generator/generator.go b/generator/generator.go
index 4025cc4..83b0342 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -20,6 +20,8 @@ type Generator struct {
 	rand          *rand.Rand
 	noTimestamps  bool
 	maxMem        MemSpec
+	// helperTypes has the types each of the helper names is given to
+	helperTypes map[string]string
 }
 
 func (g *Generator) DisableTimestamps() {
@@ -65,6 +67,7 @@ func New(pkg string, cfg *Config, tr *tl.Translator) (*Generator, error) {
 		doneC:       make(chan struct{}),
 		rand:        rand.New(rand.NewSource(+79269965690)),
 		maxMem:      MemSpecDefault,
+		helperTypes: make(map[string]string),
 	}
 	return gen, nil
 }
-- 
2.43.0


From 8be5dfe364955a73af7c1de0fbbe2627036f5383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 17/53] fix: lay a slice over the elements that the result has

---
 generator/gen_bindings.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index 8f34f73..da25139 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -919,9 +919,10 @@ func (gen *Generator) proxyRetToGo(memTip tl.Tip, varName, ptrName string,
 		proxy = fmt.Sprintf("var %s %s\n%s(%s%s, %s)", varName, goSpec, helper.Name, ref, varName, ptrName)
 		return proxy, helper.Nillable
 	case isPlain && goSpec.Slices != 0: // ex: []byte
-		specStr := ptrs(goSpec.Pointers) + goSpec.PlainType()
+		elemSpec := goSpec
+		elemSpec.Slices--
 		proxy = fmt.Sprintf("%s := (*(*[%s]%s)(unsafe.Pointer(%s)))[:0]",
-			varName, gen.maxMem, specStr, ptrName)
+			varName, gen.maxMem, elemSpec, ptrName)
 		return
 	case isPlain: // ex: byte, [4]byte
 		if (goSpec.Kind == tl.PlainTypeKind || goSpec.Kind == tl.EnumKind) &&
-- 
2.43.0


From 157087575b1386b1a99185b342f8adffc6163390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:54 +0000
Subject: [PATCH 18/53] fix: leave out members of structures that cgo cannot
 access

---
 translator/ast_walker.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index ac95d36..dca8a72 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -214,9 +214,14 @@ func (t *Translator) structSpec(base *CTypeSpec, typ cc.Type, deep int) *CStruct
 				name = identifierOf(m.Declarator().DirectDeclarator)
 				isConst = m.Declarator().IsConst()
 			}
+			memberSpec := t.typeSpec(m.Type(), name, deep+1, isConst, false)
+			if m.IsBitfield() || m.IsFlexibleArrayMember() {
+				// cgo has no such fields
+				continue
+			}
 			spec.Members = append(spec.Members, &CDecl{
 				Name:     memberName(i, m),
-				Spec:     t.typeSpec(m.Type(), name, deep+1, isConst, false),
+				Spec:     memberSpec,
 				Position: position,
 			})
 		}
-- 
2.43.0


From e7f405964733b7410770e9e10df095243c1b4c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:54 +0000
Subject: [PATCH 19/53] fix: copy the elements of a slice of pointers as
 pointers

---
 generator/gen_bindings.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index da25139..b7e70e9 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -381,14 +381,17 @@ func (gen *Generator) getUnpackStringHelper(cgoSpec tl.CGoSpec) *Helper {
 }
 
 func (gen *Generator) getCopyBytesHelper(cgoSpec tl.CGoSpec) *Helper {
-	cgoSpec = tl.CGoSpec{
-		Pointers: 1,
+	elemSpec := tl.CGoSpec{
 		Base:     cgoSpec.Base,
+		InnerArr: cgoSpec.InnerArr,
+	}
+	if cgoSpec.Pointers > 1 {
+		elemSpec.Pointers = cgoSpec.Pointers - 1
 	}
+	cgoSpec = elemSpec
+	cgoSpec.Pointers++
 	name := "copy" + gen.getTypedHelperName("bytes", cgoSpec)
-	sizeofConst := "sizeOf" + gen.getTypedHelperName("value", tl.CGoSpec{
-		Base: cgoSpec.Base,
-	})
+	sizeofConst := "sizeOf" + gen.getTypedHelperName("value", elemSpec)
 	return &Helper{
 		Name:        name,
 		Description: fmt.Sprintf("%s copies the data from Go slice as %s.", name, cgoSpec),
@@ -410,9 +413,7 @@ func (gen *Generator) getCopyBytesHelper(cgoSpec tl.CGoSpec) *Helper {
 		Requires: []*Helper{
 			sliceHeader,
 			cgoAllocMap,
-			gen.getAllocMemoryHelper(tl.CGoSpec{
-				Base: cgoSpec.Base,
-			}),
+			gen.getAllocMemoryHelper(elemSpec),
 		},
 	}
 }
-- 
2.43.0


From 30142be468125887792539e7464c6e7ae40547a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:54 +0000
Subject: [PATCH 20/53] fix: do not read a function pointer of C into a Go
 callback

---
 generator/gen_bindings.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index b7e70e9..ddff0a7 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -879,6 +879,9 @@ func (gen *Generator) proxyValueToGo(memTip tl.Tip, varName, ptrName string,
 		}
 		proxy = fmt.Sprintf("%s = %s(%s%s)(unsafe.Pointer(%s%s))", varName, ptr, ptr, goSpec, ref, ptrName)
 		return
+	case goSpec.Kind == tl.FunctionKind: // ex: SomeCallback
+		proxy = fmt.Sprintf("// %s is a callback func", varName)
+		return
 	default: // ex: *SomeType
 		var ref, deref string
 		if cgoSpec.Pointers == 0 {
-- 
2.43.0


From c64a6fa3332a902ffa5e80419db6eba17f48e652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 21/53] fix: keep the names of the fields of a struct distinct

---
 generator/gen_common.go         | 32 ++++++++++++++++++++++++++++++--
 generator/gen_struct_helpers.go | 12 ++++++------
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/generator/gen_common.go b/generator/gen_common.go
index 83898da..3d7dee0 100644
--- a/generator/gen_common.go
+++ b/generator/gen_common.go
@@ -19,6 +19,7 @@ func (gen *Generator) writeStructMembers(wr io.Writer, structName string, spec t
 	structSpec := spec.(*tl.CStructSpec)
 	ptrTipRx, typeTipRx, memTipRx := gen.tr.TipRxsForSpec(tl.TipScopeType, structName, structSpec)
 	const public = true
+	fieldNames := gen.fieldNames(structSpec, structMethods...)
 	for i, member := range structSpec.Members {
 		ptrTip := ptrTipRx.TipAt(i)
 		if !ptrTip.IsValid() {
@@ -35,7 +36,7 @@ func (gen *Generator) writeStructMembers(wr io.Writer, structName string, spec t
 		if memTip == tl.TipMemRaw {
 			ptrTip = tl.TipPtrSRef
 		}
-		declName := checkName(gen.tr.TransformName(tl.TargetType, member.Name, public))
+		declName := fieldNames[i]
 		switch member.Spec.Kind() {
 		case tl.TypeKind:
 			goSpec := gen.tr.TranslateSpec(member.Spec, ptrTip, typeTip)
@@ -53,7 +54,7 @@ func (gen *Generator) writeStructMembers(wr io.Writer, structName string, spec t
 			typeRef := gen.tr.TranslateSpec(member.Spec, ptrTip, typeTip).String()
 			fmt.Fprintf(wr, "%s %s", declName, typeRef)
 		case tl.FunctionKind:
-			gen.writeFunctionAsArg(wr, member, string(declName), ptrTip, typeTip, public)
+			gen.writeFunctionAsArg(wr, member, declName, ptrTip, typeTip, public)
 		}
 		writeSpace(wr, 1)
 	}
@@ -71,6 +72,33 @@ func (gen *Generator) writeStructMembers(wr io.Writer, structName string, spec t
 	fmt.Fprintf(wr, "allocs%2x interface{}\n", crc)
 }
 
+// structMethods are the methods of a struct that its fields cannot be named like.
+var structMethods = []string{"Ref", "Free", "PassRef", "PassValue", "Deref"}
+
+// fieldNames returns the Go names of the members, all of them are distinct from each other
+// and from the reserved names.
+func (gen *Generator) fieldNames(spec *tl.CStructSpec, reserved ...string) []string {
+	const public = true
+
+	names := make([]string, len(spec.Members))
+	seen := make(map[string]bool, len(spec.Members)+len(reserved))
+	for _, name := range reserved {
+		seen[name] = true
+	}
+	for i, member := range spec.Members {
+		name := string(gen.tr.TransformName(tl.TargetType, member.Name, public))
+		if len(name) == 0 {
+			name = fmt.Sprintf("field%d", i)
+		}
+		for seen[name] {
+			name += "_"
+		}
+		seen[name] = true
+		names[i] = name
+	}
+	return names
+}
+
 // paramTypeTip returns the type tip of the parameter at the position.
 func (gen *Generator) paramTypeTip(typeTipRx tl.TipSpecRx, i int, param *tl.CDecl) tl.Tip {
 	typeTip := typeTipRx.TipAt(i)
diff --git a/generator/gen_struct_helpers.go b/generator/gen_struct_helpers.go
index 85dfa91..64394e1 100644
--- a/generator/gen_struct_helpers.go
+++ b/generator/gen_struct_helpers.go
@@ -174,6 +174,7 @@ func (gen *Generator) getRawStructHelpers(goStructName []byte, cStructName strin
 		return
 	}
 	ptrTipRx, typeTipRx, memTipRx := gen.tr.TipRxsForSpec(tl.TipScopeType, cStructName, spec)
+	fieldNames := gen.fieldNames(structSpec)
 	for i, m := range structSpec.Members {
 		if len(m.Name) == 0 {
 			continue
@@ -201,8 +202,7 @@ func (gen *Generator) getRawStructHelpers(goStructName []byte, cStructName strin
 		if goSpec.Pointers > 0 && goSpec.Base == "func" {
 			continue
 		}
-		const public = true
-		goName := string(gen.tr.TransformName(tl.TargetType, m.Name, public))
+		goName := fieldNames[i]
 		arr := len(goSpec.OuterArr.Sizes()) > 0 || len(goSpec.InnerArr.Sizes()) > 0
 		if !arr {
 			goSpec.Pointers += 1
@@ -247,6 +247,7 @@ func (gen *Generator) getPassRefSource(goStructName []byte, cStructName string,
 	writeSpace(buf, 1)
 
 	ptrTipRx, typeTipRx, memTipRx := gen.tr.TipRxsForSpec(tl.TipScopeType, cStructName, spec)
+	fieldNames := gen.fieldNames(structSpec, structMethods...)
 	for i, m := range structSpec.Members {
 		if len(m.Name) == 0 {
 			continue
@@ -271,8 +272,7 @@ func (gen *Generator) getPassRefSource(goStructName []byte, cStructName string,
 		typeTip := typeTipRx.TipAt(i)
 		goSpec := gen.tr.TranslateSpec(m.Spec, ptrTip, typeTip)
 		cgoSpec := gen.tr.CGoSpec(m.Spec, false)
-		const public = true
-		goName := "x." + string(gen.tr.TransformName(tl.TargetType, m.Name, public))
+		goName := "x." + fieldNames[i]
 		fromProxy, nillable := gen.proxyValueFromGo(memTip, goName, goSpec, cgoSpec)
 		if nillable {
 			fmt.Fprintf(buf, "if %s != nil {\n", goName)
@@ -319,6 +319,7 @@ func (gen *Generator) getDerefSource(goStructName []byte, cStructName string, sp
 	writeSpace(buf, 1)
 
 	ptrTipRx, typeTipRx, memTipRx := gen.tr.TipRxsForSpec(tl.TipScopeType, cStructName, spec)
+	fieldNames := gen.fieldNames(structSpec, structMethods...)
 	for i, m := range structSpec.Members {
 		if len(m.Name) == 0 {
 			continue
@@ -342,8 +343,7 @@ func (gen *Generator) getDerefSource(goStructName []byte, cStructName string, sp
 		}
 		typeTip := typeTipRx.TipAt(i)
 		goSpec := gen.tr.TranslateSpec(m.Spec, ptrTip, typeTip)
-		const public = true
-		goName := "x." + string(gen.tr.TransformName(tl.TargetType, m.Name, public))
+		goName := "x." + fieldNames[i]
 		cgoName := fmt.Sprintf("x.ref%2x.%s", crc, m.Name)
 		cgoSpec := gen.tr.CGoSpec(m.Spec, false)
 		lenField := getLenField(gen, structSpec, m)
-- 
2.43.0


From e41417834d309cf8e8caa1988e4d3da77067ade3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:12 +0000
Subject: [PATCH 22/53] fix: leave out members of types that have no name

---
 generator/gen_common.go         | 14 ++++++++++++--
 generator/gen_struct_helpers.go |  9 +++------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/generator/gen_common.go b/generator/gen_common.go
index 3d7dee0..7934d88 100644
--- a/generator/gen_common.go
+++ b/generator/gen_common.go
@@ -42,13 +42,13 @@ func (gen *Generator) writeStructMembers(wr io.Writer, structName string, spec t
 			goSpec := gen.tr.TranslateSpec(member.Spec, ptrTip, typeTip)
 			fmt.Fprintf(wr, "%s %s", declName, goSpec)
 		case tl.StructKind, tl.OpaqueStructKind, tl.UnionKind:
-			if !gen.tr.IsAcceptableName(tl.TargetType, member.Spec.GetBase()) {
+			if !gen.isMemberTypeAccepted(member.Spec) {
 				continue
 			}
 			goSpec := gen.tr.TranslateSpec(member.Spec, ptrTip, typeTip)
 			fmt.Fprintf(wr, "%s %s", declName, goSpec)
 		case tl.EnumKind:
-			if !gen.tr.IsAcceptableName(tl.TargetType, member.Spec.GetBase()) {
+			if !gen.isMemberTypeAccepted(member.Spec) {
 				continue
 			}
 			typeRef := gen.tr.TranslateSpec(member.Spec, ptrTip, typeTip).String()
@@ -72,6 +72,16 @@ func (gen *Generator) writeStructMembers(wr io.Writer, structName string, spec t
 	fmt.Fprintf(wr, "allocs%2x interface{}\n", crc)
 }
 
+// isMemberTypeAccepted tells if the rules accept the type of a member, a type that
+// has no name cannot be referred to.
+func (gen *Generator) isMemberTypeAccepted(spec tl.CType) bool {
+	name := spec.GetBase()
+	if enumSpec, ok := spec.(*tl.CEnumSpec); ok && len(name) == 0 {
+		name = enumSpec.EnumTag
+	}
+	return len(name) > 0 && gen.tr.IsAcceptableName(tl.TargetType, name)
+}
+
 // structMethods are the methods of a struct that its fields cannot be named like.
 var structMethods = []string{"Ref", "Free", "PassRef", "PassValue", "Deref"}
 
diff --git a/generator/gen_struct_helpers.go b/generator/gen_struct_helpers.go
index 64394e1..99df13a 100644
--- a/generator/gen_struct_helpers.go
+++ b/generator/gen_struct_helpers.go
@@ -180,10 +180,9 @@ func (gen *Generator) getRawStructHelpers(goStructName []byte, cStructName strin
 			continue
 		}
 		buf.Reset()
-		typeName := m.Spec.GetBase()
 		switch m.Spec.Kind() {
 		case tl.StructKind, tl.OpaqueStructKind, tl.UnionKind, tl.EnumKind:
-			if !gen.tr.IsAcceptableName(tl.TargetType, typeName) {
+			if !gen.isMemberTypeAccepted(m.Spec) {
 				continue
 			}
 		}
@@ -254,10 +253,9 @@ func (gen *Generator) getPassRefSource(goStructName []byte, cStructName string,
 			// TODO: generate setters
 		}
 
-		typeName := m.Spec.GetBase()
 		switch m.Spec.Kind() {
 		case tl.StructKind, tl.OpaqueStructKind, tl.UnionKind, tl.EnumKind:
-			if !gen.tr.IsAcceptableName(tl.TargetType, typeName) {
+			if !gen.isMemberTypeAccepted(m.Spec) {
 				continue
 			}
 		}
@@ -326,10 +324,9 @@ func (gen *Generator) getDerefSource(goStructName []byte, cStructName string, sp
 			// TODO: generate getters
 		}
 
-		typeName := m.Spec.GetBase()
 		switch m.Spec.Kind() {
 		case tl.StructKind, tl.OpaqueStructKind, tl.UnionKind, tl.EnumKind:
-			if !gen.tr.IsAcceptableName(tl.TargetType, typeName) {
+			if !gen.isMemberTypeAccepted(m.Spec) {
 				continue
 			}
 		}
-- 
2.43.0


From 14d80b27ef69d493b328b05ad39c499e36dbcf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:08 +0000
Subject: [PATCH 23/53] fix: name an enumeration in C by its tag

---
 translator/model_enum.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/translator/model_enum.go b/translator/model_enum.go
index e5b4462..dbaa5f1 100644
--- a/translator/model_enum.go
+++ b/translator/model_enum.go
@@ -35,6 +35,9 @@ func (spec CEnumSpec) String() string {
 	case len(spec.Tag) > 0:
 		writePrefix()
 		buf.WriteString(spec.Tag)
+	case len(spec.EnumTag) > 0:
+		writePrefix()
+		buf.WriteString(spec.EnumTag)
 	case len(spec.Members) > 0:
 		var members []string
 		for _, m := range spec.Members {
-- 
2.43.0


From e45b2b180844025f2b1c46585223c6b25edb349c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:09 +0000
Subject: [PATCH 24/53] fix: take a typedef of void * for what cgo makes of it

---
 generator/gen_bindings.go  | 7 +------
 generator/gen_callbacks.go | 2 +-
 translator/translator.go   | 2 --
 3 files changed, 2 insertions(+), 9 deletions(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index ddff0a7..46e9643 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -565,11 +565,6 @@ func (gen *Generator) proxyArgFromGo(memTip tl.Tip, name string,
 		return proxy, helper.Nillable
 	case isPlain && goSpec.Slices != 0: // ex: []byte
 		gen.submitHelper(sliceHeader)
-		if goSpec.Base == "unsafe.Pointer" &&
-			(len(goSpec.Raw) == 0 || goSpec.Raw == "unsafe.Pointer") {
-			// Go 1.8+
-			cgoSpec.Base = "unsafe.Pointer"
-		}
 		helper := gen.getCopyBytesHelper(cgoSpec)
 		gen.submitHelper(helper)
 		proxy = fmt.Sprintf("(%s)(unsafe.Pointer((*sliceHeader)(unsafe.Pointer(&%s)).Data)), cgoAllocsUnknown", cgoSpec.AtLevel(0), name)
@@ -587,7 +582,7 @@ func (gen *Generator) proxyArgFromGo(memTip tl.Tip, name string,
 			}
 			proxy = fmt.Sprintf("*(**[0]byte)(unsafe.Pointer(%s%s)), cgoAllocsUnknown", ref, name)
 			return
-		} else if goSpec.Base == "unsafe.Pointer" &&
+		} else if cgoSpec.Base == "unsafe.Pointer" && goSpec.Base == "unsafe.Pointer" &&
 			(len(goSpec.Raw) == 0 || goSpec.Raw == "unsafe.Pointer") {
 			// Go 1.8+
 			proxy = fmt.Sprintf("%s, cgoAllocsUnknown", name)
diff --git a/generator/gen_callbacks.go b/generator/gen_callbacks.go
index e1a067d..e8a7ea5 100644
--- a/generator/gen_callbacks.go
+++ b/generator/gen_callbacks.go
@@ -159,7 +159,7 @@ func (gen *Generator) writeCallbackProxyFunc(wr io.Writer, decl *tl.CDecl) {
 	var returnRef string
 	funcSpec := decl.Spec.(*tl.CFunctionSpec)
 	if funcSpec.Return != nil {
-		cgoSpec := gen.tr.CGoSpec(funcSpec.Return, false)
+		cgoSpec := gen.tr.CGoSpec(funcSpec.Return, true)
 		returnRef = cgoSpec.String()
 	}
 	fmt.Fprintf(wr, "func %s", decl.Name)
diff --git a/translator/translator.go b/translator/translator.go
index 3bab912..abceee2 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -1005,8 +1005,6 @@ func (t *Translator) CGoSpec(spec CType, asArg bool) CGoSpec {
 			if len(typ.Raw) == 0 {
 				cgo.Base = "unsafe.Pointer"
 				return cgo
-			} else if !asArg {
-				cgo.Pointers++
 			}
 		}
 	}
-- 
2.43.0


From 8d189912b9cce7d96533be08b4c2c7b0be86c22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:10 +0000
Subject: [PATCH 25/53] fix: keep the pointers to a function type that
 callbacks have

---
 generator/gen_callbacks.go | 14 +++++++++++---
 translator/translator.go   | 17 +++++++++++------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/generator/gen_callbacks.go b/generator/gen_callbacks.go
index e8a7ea5..703ebb1 100644
--- a/generator/gen_callbacks.go
+++ b/generator/gen_callbacks.go
@@ -16,6 +16,15 @@ func unexportName(name string) string {
 	return strings.ToLower(name[:1]) + name[1:]
 }
 
+// callbackTypeOf returns the C type of a parameter or a result of a callback proxy.
+func (gen *Generator) callbackTypeOf(spec tl.CType) string {
+	spec = gen.tr.NormalizeSpecPointers(spec)
+	if spec.Kind() == tl.FunctionKind {
+		return fmt.Sprintf("%s%s", spec, strings.Repeat("*", int(spec.GetPointers())))
+	}
+	return spec.AtLevel(0).String()
+}
+
 func (gen *Generator) getCallbackHelpers(goFuncName, cFuncName string, spec tl.CType) (helpers []*Helper) {
 	crc := getRefCRC(spec)
 	cbCName := fmt.Sprintf("%s_%2x", cFuncName, crc)
@@ -30,8 +39,7 @@ func (gen *Generator) getCallbackHelpers(goFuncName, cFuncName string, spec tl.C
 		if len(param.Name) == 0 {
 			param.Name = fmt.Sprintf("arg%d", i)
 		}
-		paramSpec := gen.tr.NormalizeSpecPointers(param.Spec)
-		params = append(params, fmt.Sprintf("%s %s", paramSpec.AtLevel(0), param.Name))
+		params = append(params, fmt.Sprintf("%s %s", gen.callbackTypeOf(param.Spec), param.Name))
 		paramNames = append(paramNames, param.Name)
 		paramNamesGo = append(paramNamesGo, fmt.Sprintf("%s%2x", goNames[i], crc))
 	}
@@ -42,7 +50,7 @@ func (gen *Generator) getCallbackHelpers(goFuncName, cFuncName string, spec tl.C
 	buf := new(bytes.Buffer)
 	retSpec := "void"
 	if funcSpec.Return != nil {
-		retSpec = gen.tr.NormalizeSpecPointers(funcSpec.Return).String()
+		retSpec = gen.callbackTypeOf(funcSpec.Return)
 	}
 	fmt.Fprintf(buf, "%s %s(%s);", retSpec, cbCName, paramList)
 	helpers = append(helpers, &Helper{
diff --git a/translator/translator.go b/translator/translator.go
index abceee2..62cb5c5 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -970,7 +970,7 @@ func (t *Translator) declaredName(spec CType) string {
 }
 
 func (t *Translator) NormalizeSpecPointers(spec CType) CType {
-	if spec.Kind() == OpaqueStructKind {
+	if kind := spec.Kind(); kind == OpaqueStructKind || kind == FunctionKind {
 		residual := t.residualPointers(spec)
 		spec := spec.Copy()
 		spec.SetPointers(residual)
@@ -985,11 +985,16 @@ func (t *Translator) NormalizeSpecPointers(spec CType) CType {
 // -> go_F(C.a *arg) but not go_F(C.a **arg).
 func (t *Translator) residualPointers(spec CType) uint8 {
 	pointers := spec.GetPointers()
-	if structSpec, ok := spec.(*CStructSpec); ok {
-		decl, known := t.typedefsSet[structSpec.Typedef]
-		if known && decl.Spec.GetPointers() <= pointers {
-			pointers -= decl.Spec.GetPointers()
-		}
+	var typedef string
+	switch spec := spec.(type) {
+	case *CStructSpec:
+		typedef = spec.Typedef
+	case *CFunctionSpec:
+		typedef = spec.Raw
+	}
+	decl, known := t.typedefsSet[typedef]
+	if known && decl.Spec.GetPointers() <= pointers {
+		pointers -= decl.Spec.GetPointers()
 	}
 	return pointers
 }
-- 
2.43.0


From 387b2830f1504d3207043739c572a5bb58d8d595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:11 +0000
Subject: [PATCH 26/53] fix: do not call what C passes to a callback as a
 callback

---
 generator/gen_callbacks.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/generator/gen_callbacks.go b/generator/gen_callbacks.go
index 703ebb1..5139a95 100644
--- a/generator/gen_callbacks.go
+++ b/generator/gen_callbacks.go
@@ -269,7 +269,7 @@ func (gen *Generator) proxyCallbackArgToGo(memTip tl.Tip, varName, ptrName strin
 			proxy = fmt.Sprintf("%s := (%s)(%s)", varName, goSpec, ptrName)
 			return
 		} else if goSpec.Kind == tl.FunctionKind {
-			proxy = fmt.Sprintf("// %s is a callback func", varName)
+			proxy = fmt.Sprintf("var %s %s // %s is a callback func", varName, goSpec.Raw, ptrName)
 			return
 		} else if goSpec.Pointers == 0 {
 			ref = "&"
@@ -277,6 +277,9 @@ func (gen *Generator) proxyCallbackArgToGo(memTip tl.Tip, varName, ptrName strin
 		}
 		proxy = fmt.Sprintf("%s := %s(%s%s)(unsafe.Pointer(%s%s))", varName, ptr, ptr, goSpec, ref, ptrName)
 		return
+	case goSpec.Kind == tl.FunctionKind: // ex: SomeCallback
+		proxy = fmt.Sprintf("var %s %s // %s is a callback func", varName, goSpec.Raw, ptrName)
+		return
 	default: // ex: *SomeType
 		var ref, deref string
 		if cgoSpec.Pointers == 0 {
-- 
2.43.0


From 72062ea4d44bc887facce5d57920ea0e352c3d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:12 +0000
Subject: [PATCH 27/53] fix: convert what a callback takes and returns by the
 tips it is declared with

---
 generator/gen_callbacks.go | 27 +++++++++++++++++++++++----
 generator/gen_common.go    |  4 ++--
 generator/gen_declares.go  |  4 ++--
 generator/gen_typedef.go   |  2 +-
 4 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/generator/gen_callbacks.go b/generator/gen_callbacks.go
index 5139a95..77f3fb3 100644
--- a/generator/gen_callbacks.go
+++ b/generator/gen_callbacks.go
@@ -142,9 +142,21 @@ func (gen *Generator) getCallbackHelpers(goFuncName, cFuncName string, spec tl.C
 		ret := fmt.Sprintf("__ret%2x", crc)
 		fmt.Fprintf(buf, "%s := %sFunc(%s)\n", ret, cbGoName, paramNamesGoList)
 		ptrTipRx, typeTipRx, memTipRx := gen.tr.TipRxsForSpec(tl.TipScopeFunction, cFuncName, funcSpec)
-		retGoSpec := gen.tr.TranslateSpec(funcSpec.Return, ptrTipRx.Self(), typeTipRx.Self())
+		// the same defaults as of the callback type
+		ptrTip, typeTip := ptrTipRx.Self(), typeTipRx.Self()
+		if !ptrTip.IsValid() {
+			ptrTip = tl.TipPtrRef
+		}
+		if !typeTip.IsValid() {
+			typeTip = tl.TipTypeNamed
+		}
+		retGoSpec := gen.tr.TranslateSpec(funcSpec.Return, ptrTip, typeTip)
 		retCGoSpec := gen.tr.CGoSpec(funcSpec.Return, true) // asArg?
-		retProxy, _ := gen.proxyArgFromGo(memTipRx.Self(), ret, retGoSpec, retCGoSpec)
+		memTip := memTipRx.Self()
+		if !memTip.IsValid() {
+			memTip = gen.MemTipOf(&tl.CDecl{Spec: funcSpec.Return})
+		}
+		retProxy, _ := gen.proxyArgFromGo(memTip, ret, retGoSpec, retCGoSpec)
 		fmt.Fprintf(buf, "ret, _ := %s\n", retProxy)
 		fmt.Fprintf(buf, "return ret\n")
 	} else {
@@ -205,14 +217,21 @@ func (gen *Generator) createCallbackProxies(funcName string, funcSpec tl.CType)
 	for i, param := range spec.Params {
 		var goSpec tl.GoTypeSpec
 		ptrTip := ptrTipRx.TipAt(i)
-		typeTip := typeTipRx.TipAt(i)
+		if ptrTip == tl.TipPtrInst {
+			ptrTip = tl.TipPtrRef
+		}
+		typeTip := gen.paramTypeTip(typeTipRx, i, param)
 		goSpec = gen.tr.TranslateSpec(param.Spec, ptrTip, typeTip)
 		cgoSpec := gen.tr.CGoSpec(param.Spec, true)
 		refName, cname := refNames[i], names[i]
 		toBuf := new(bytes.Buffer)
 
 		refName = fmt.Sprintf("%s%2x", refName, crc)
-		toProxy, _ := gen.proxyCallbackArgToGo(memTipRx.TipAt(i), refName, cname, goSpec, cgoSpec)
+		memTip := memTipRx.TipAt(i)
+		if !memTip.IsValid() {
+			memTip = gen.MemTipOf(param)
+		}
+		toProxy, _ := gen.proxyCallbackArgToGo(memTip, refName, cname, goSpec, cgoSpec)
 		if len(toProxy) > 0 {
 			fmt.Fprintln(toBuf, toProxy)
 			to = append(to, proxyDecl{Name: cname, Decl: toBuf.String()})
diff --git a/generator/gen_common.go b/generator/gen_common.go
index 7934d88..2317c75 100644
--- a/generator/gen_common.go
+++ b/generator/gen_common.go
@@ -214,7 +214,7 @@ func (gen *Generator) writeFunctionParam(wr io.Writer, param *tl.CDecl, declName
 	}
 }
 
-func (gen *Generator) writeFunctionParams(wr io.Writer, funcName string, funcSpec tl.CType) {
+func (gen *Generator) writeFunctionParams(wr io.Writer, funcName string, funcSpec tl.CType, hasReceiver bool) {
 	spec := funcSpec.(*tl.CFunctionSpec)
 	ptrTipSpecRx, _ := gen.tr.PtrTipRx(tl.TipScopeFunction, funcName)
 	typeTipSpecRx, _ := gen.tr.TypeTipRx(tl.TipScopeFunction, funcName)
@@ -226,7 +226,7 @@ func (gen *Generator) writeFunctionParams(wr io.Writer, funcName string, funcSpe
 		ptrTip := ptrTipSpecRx.TipAt(i)
 
 		if ptrTip == tl.TipPtrInst {
-			if !hasInst {
+			if hasReceiver && !hasInst {
 				// written as the receiver
 				hasInst = true
 				continue
diff --git a/generator/gen_declares.go b/generator/gen_declares.go
index 99c5767..5f52902 100644
--- a/generator/gen_declares.go
+++ b/generator/gen_declares.go
@@ -62,7 +62,7 @@ func (gen *Generator) writeFunctionAsArg(wr io.Writer, decl *tl.CDecl, goName st
 	}
 	goSpec := gen.tr.TranslateSpec(decl.Spec, ptrTip, typeTip)
 	fmt.Fprintf(wr, "%s %s", goName, goSpec)
-	gen.writeFunctionParams(wr, cName, decl.Spec)
+	gen.writeFunctionParams(wr, cName, decl.Spec, false)
 	if len(returnRef) > 0 {
 		fmt.Fprintf(wr, " %s", returnRef)
 	}
@@ -86,7 +86,7 @@ func (gen *Generator) writeFunctionDeclaration(wr io.Writer, decl *tl.CDecl,
 	fmt.Fprintf(wr, "func")
 	gen.writeInstanceObjectParam(wr, cName, decl.Spec)
 	fmt.Fprintf(wr, " %s", goName)
-	gen.writeFunctionParams(wr, cName, decl.Spec)
+	gen.writeFunctionParams(wr, cName, decl.Spec, true)
 	if len(returnRef) > 0 {
 		fmt.Fprintf(wr, " %s", returnRef)
 	}
diff --git a/generator/gen_typedef.go b/generator/gen_typedef.go
index 4722d6b..01384fe 100644
--- a/generator/gen_typedef.go
+++ b/generator/gen_typedef.go
@@ -72,7 +72,7 @@ func (gen *Generator) writeFunctionTypedef(wr io.Writer, decl *tl.CDecl, seenNam
 	fmt.Fprintf(wr, "// %s type as declared in %s\n", goFuncName,
 		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetFunction, decl.Name, decl.Position)))
 	fmt.Fprintf(wr, "type %s %s", goFuncName, goSpec)
-	gen.writeFunctionParams(wr, decl.Name, decl.Spec)
+	gen.writeFunctionParams(wr, decl.Name, decl.Spec, false)
 	if len(returnRef) > 0 {
 		fmt.Fprintf(wr, " %s", returnRef)
 	}
-- 
2.43.0


From a893bf2d3eec4abb6985cd82de7eb4294d84649b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 28/53] fix: descriptions that hold the end of a comment and
 carriage returns in licenses left their comments

---
 generator/gen_files.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/generator/gen_files.go b/generator/gen_files.go
index 209da88..4a676b7 100644
--- a/generator/gen_files.go
+++ b/generator/gen_files.go
@@ -184,6 +184,11 @@ func writeLongTextBlock(wr io.Writer, text string) {
 	if len(text) == 0 {
 		return
 	}
+	if strings.Contains(text, "*/") {
+		// the text would end the comment
+		writeTextBlock(wr, text)
+		return
+	}
 	writeStartComment(wr)
 	fmt.Fprint(wr, text)
 	writeSpace(wr, 1)
@@ -194,6 +199,8 @@ func writeTextBlock(wr io.Writer, text string) {
 	if len(text) == 0 {
 		return
 	}
+	// some C compilers end lines at carriage returns as well
+	text = strings.NewReplacer("\r\n", "\n", "\r", "\n").Replace(text)
 	lines := strings.Split(text, "\n")
 	for _, line := range lines {
 		fmt.Fprintf(wr, "// %s\n", line)
-- 
2.43.0


From 8737985b108fc72ec529f261eb69ef15d3622ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 29/53] fix: length fields of structs without a typedef were
 ignored, or taken from the entry of no struct

---
 generator/gen_struct_helpers.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/generator/gen_struct_helpers.go b/generator/gen_struct_helpers.go
index 99df13a..fe453f6 100644
--- a/generator/gen_struct_helpers.go
+++ b/generator/gen_struct_helpers.go
@@ -351,9 +351,9 @@ func (gen *Generator) getDerefSource(goStructName []byte, cStructName string, sp
 }
 
 func getLenField(gen *Generator, structSpec *tl.CStructSpec, m *tl.CDecl) string {
-	lenField := ""
-	if gen.tr.LenFields() != nil {
-		lenField = gen.tr.LenFields()[structSpec.Typedef+"."+m.Name]
+	name := structSpec.Typedef
+	if len(name) == 0 {
+		name = structSpec.Tag
 	}
-	return lenField
+	return gen.tr.LenFields()[name+"."+m.Name]
 }
-- 
2.43.0


From 45ea55c218a272b256c34fa1b652cf583c1c5b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 30/53] fix: failures to write unformatted Go files and to
 close Go files were reported as success

---
 process.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/process.go b/process.go
index 219b611..26cc23f 100644
--- a/process.go
+++ b/process.go
@@ -199,7 +199,7 @@ func (c *Process) Flush(noCGO bool) error {
 					f.Close()
 					return err
 				}
-				f.Close()
+				return f.Close()
 			} else {
 				return err
 			}
@@ -261,8 +261,8 @@ func flushBufferToFile(buf []byte, f *os.File, fmt bool) error {
 			return err
 		} else {
 			log.Printf("[WARN] cannot gofmt %s: %s\n", f.Name(), err.Error())
-			f.Write(buf)
-			return nil
+			_, err = f.Write(buf)
+			return err
 		}
 	}
 	_, err := f.Write(buf)
-- 
2.43.0


From 2eb59e228aff72bd65c600264db3f86c4ecce79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 31/53] fix: the main file of a package called doc, const,
 types, unions or cgo_helpers was overwritten

---
 process.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/process.go b/process.go
index 26cc23f..43dee9c 100644
--- a/process.go
+++ b/process.go
@@ -229,6 +229,13 @@ func (c *Process) Flush(noCGO bool) error {
 
 	if !noCGO {
 		pkg := filepath.Base(c.cfg.Generator.PackageName)
+		for _, name := range goBufferNames {
+			if name == pkg {
+				// would overwrite the file of that buffer
+				pkg += "_main"
+				break
+			}
+		}
 		if err := writeGoFile(BufMain, pkg); err != nil {
 			return err
 		}
-- 
2.43.0


From f9fa6584723e10127ababf136019f0a5eb4483ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 32/53] fix: defines from the configuration lost quotes,
 backslashes and digits on the way to the C front end

---
 parser/parser.go | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 0c6748d..555cba7 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -8,6 +8,7 @@ import (
 	"os/exec"
 	"path/filepath"
 	"runtime"
+	"strconv"
 	"strings"
 
 	"modernc.org/cc/v4"
@@ -40,11 +41,13 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 	for name, value := range cfg.Defines {
 		switch v := value.(type) {
 		case string:
-			predefined += fmt.Sprintf("\n#define %s \"%s\"", name, v)
+			predefined += fmt.Sprintf("\n#define %s %s", name, stringLiteral(v))
 		case int, int16, int32, int64, uint, uint16, uint32, uint64:
 			predefined += fmt.Sprintf("\n#define %s %d", name, v)
-		case float32, float64:
-			predefined += fmt.Sprintf("\n#define %s %ff", name, v)
+		case float32:
+			predefined += fmt.Sprintf("\n#define %s %sf", name, floatLiteral(float64(v), 32))
+		case float64:
+			predefined += fmt.Sprintf("\n#define %s %s", name, floatLiteral(v, 64))
 		case map[interface{}]interface{}:
 			if len(v) == 0 { // the special case for override a definition beforehand
 				predefined += fmt.Sprintf("\n#define %s", name)
@@ -100,6 +103,31 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 	return cc.Translate(ccConfig, sources)
 }
 
+// stringLiteral spells s as a C string literal.
+func stringLiteral(s string) string {
+	lit := []byte{'"'}
+	for i := 0; i < len(s); i++ {
+		switch c := s[i]; {
+		case c == '"' || c == '\\':
+			lit = append(lit, '\\', c)
+		case c < ' ' || c == 0x7f:
+			lit = append(lit, fmt.Sprintf("\\%03o", c)...)
+		default:
+			lit = append(lit, c)
+		}
+	}
+	return string(append(lit, '"'))
+}
+
+// floatLiteral spells v as a C floating-point literal that has exactly this value.
+func floatLiteral(v float64, bitSize int) string {
+	lit := strconv.FormatFloat(v, 'g', -1, bitSize)
+	if !strings.ContainsAny(lit, ".e") {
+		lit += ".0"
+	}
+	return lit
+}
+
 func checkConfig(cfg *Config) (*Config, error) {
 	if cfg == nil {
 		cfg = &Config{}
-- 
2.43.0


From c9197d461733c8550df1095b9065a328a9253511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 33/53] fix: macros of the host preprocessor took precedence
 over defines from the configuration

---
 parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 555cba7..816c205 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -85,7 +85,8 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 		}
 	}
 	if cfg.CCDefs && ccDefsOK {
-		predefined += fmt.Sprintf("\n%s", ccDefs)
+		// comes first, so that user-provided defines take precedence
+		predefined = fmt.Sprintf("\n%s%s", ccDefs, predefined)
 	}
 	ccConfig, _ := cc.NewConfig(runtime.GOOS, cfg.Arch)
 	// Let cc provide all predefines and builtins. Only append custom definitions.
-- 
2.43.0


From 3c800177b78a2a92069a30ecad53051abaa01c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 34/53] fix: an unknown architecture crashed the tool instead
 of being reported

---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 816c205..2fd738d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -88,7 +88,10 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 		// comes first, so that user-provided defines take precedence
 		predefined = fmt.Sprintf("\n%s%s", ccDefs, predefined)
 	}
-	ccConfig, _ := cc.NewConfig(runtime.GOOS, cfg.Arch)
+	ccConfig, err := cc.NewConfig(runtime.GOOS, cfg.Arch)
+	if err != nil {
+		return nil, err
+	}
 	// Let cc provide all predefines and builtins. Only append custom definitions.
 	ccConfig.Predefined += predefined
 	ccConfig.IncludePaths = append(ccConfig.IncludePaths, cfg.IncludePaths...)
-- 
2.43.0


From a1efd37f2debd34b3f3aeedf9e9364f8d9d17e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 35/53] fix: a source given by an absolute path that does not
 exist was silently left out

---
 parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 2fd738d..e82125c 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -151,7 +151,9 @@ func checkConfig(cfg *Config) (*Config, error) {
 				path = hPath
 			}
 		}
-		if info, err := os.Stat(path); err != nil || info.IsDir() {
+		if info, err := os.Stat(path); err != nil {
+			return nil, fmt.Errorf("parser: file specified but not found: %s", path)
+		} else if info.IsDir() {
 			continue
 		}
 		if absPath, err := filepath.Abs(path); err != nil {
-- 
2.43.0


From 53fbe7bc0e0d9a80209924c59bc661d11c1650af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 36/53] fix: source comments named declarations by another name
 than the generated one, and broke on paths with a semicolon

---
 generator/gen_const.go    | 16 ++++++++--------
 generator/gen_declares.go |  2 +-
 generator/gen_typedef.go  | 12 ++++++------
 translator/helpers.go     | 16 ++++++++++------
 4 files changed, 25 insertions(+), 21 deletions(-)

diff --git a/generator/gen_const.go b/generator/gen_const.go
index 2971af2..4d57eee 100644
--- a/generator/gen_const.go
+++ b/generator/gen_const.go
@@ -29,7 +29,7 @@ func (gen *Generator) writeDefinesGroup(wr io.Writer, defines []*tl.CDecl) (n in
 			continue
 		}
 		fmt.Fprintf(wr, "// %s as defined in %s\n", name,
-			filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, decl.Name, decl.Position)))
+			filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, decl.Name, decl.Position, string(name))))
 
 		if ok {
 			fmt.Fprintf(wr, "%s = %s", name, literal)
@@ -52,7 +52,7 @@ func (gen *Generator) writeConstDeclaration(wr io.Writer, decl *tl.CDecl) {
 		return
 	}
 	fmt.Fprintf(wr, "// %s as declared in %s\n", declName,
-		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, decl.Name, decl.Position)))
+		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, decl.Name, decl.Position, string(declName))))
 	goSpec := gen.tr.TranslateSpec(decl.Spec)
 
 	if literal, ok := constLiteral(decl.Value); ok && isConstType(goSpec, decl.Value) {
@@ -119,11 +119,11 @@ func (gen *Generator) expandEnumAnonymous(wr io.Writer, decl *tl.CDecl, namesSee
 			}
 		}
 		fmt.Fprintf(wr, "// %s as declared in %s\n", typeName,
-			filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, decl.Name, decl.Position)))
+			filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, decl.Name, decl.Position, string(typeName))))
 		fmt.Fprintf(wr, "type %s %s\n", typeName, enumType)
 		writeSpace(wr, 1)
 		fmt.Fprintf(wr, "// %s enumeration from %s\n", typeName,
-			filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, decl.Name, decl.Position)))
+			filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, decl.Name, decl.Position, string(typeName))))
 	}
 	writeStartConst(wr)
 	for i, m := range spec.Members {
@@ -140,7 +140,7 @@ func (gen *Generator) expandEnumAnonymous(wr io.Writer, decl *tl.CDecl, namesSee
 		}
 		if !hasType {
 			fmt.Fprintf(wr, "// %s as declared in %s\n", mName,
-				filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, m.Name, m.Position)))
+				filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, m.Name, m.Position, string(mName))))
 		}
 		switch {
 		case m.Value != nil:
@@ -187,21 +187,21 @@ func (gen *Generator) expandEnum(wr io.Writer, decl *tl.CDecl, namesSeen map[str
 		}
 	}
 	fmt.Fprintf(wr, "// %s as declared in %s\n", tagName,
-		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, decl.Name, decl.Position)))
+		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, decl.Name, decl.Position, string(tagName))))
 	fmt.Fprintf(wr, "type %s %s\n", tagName, enumType)
 	writeSpace(wr, 1)
 	if isTypedef {
 		if !bytes.Equal(tagName, declName) && len(declName) > 0 {
 			// alias type decl name to the tag
 			fmt.Fprintf(wr, "// %s as declared in %s\n", declName,
-				filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, decl.Name, decl.Position)))
+				filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, decl.Name, decl.Position, string(declName))))
 			fmt.Fprintf(wr, "type %s %s", declName, tagName)
 			writeSpace(wr, 1)
 		}
 	}
 
 	fmt.Fprintf(wr, "// %s enumeration from %s\n", tagName,
-		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, decl.Name, decl.Position)))
+		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, decl.Name, decl.Position, string(tagName))))
 	writeStartConst(wr)
 	for i, m := range spec.Members {
 		if !gen.tr.IsAcceptableName(tl.TargetConst, m.Name) {
diff --git a/generator/gen_declares.go b/generator/gen_declares.go
index 5f52902..8b3c1d3 100644
--- a/generator/gen_declares.go
+++ b/generator/gen_declares.go
@@ -82,7 +82,7 @@ func (gen *Generator) writeFunctionDeclaration(wr io.Writer, decl *tl.CDecl,
 		goName = gen.tr.TransformName(tl.TargetFunction, "new_"+cName, public)
 	}
 	fmt.Fprintf(wr, "// %s function as declared in %s\n", goName,
-		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetFunction, decl.Name, decl.Position)))
+		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetFunction, decl.Name, decl.Position, string(goName))))
 	fmt.Fprintf(wr, "func")
 	gen.writeInstanceObjectParam(wr, cName, decl.Spec)
 	fmt.Fprintf(wr, " %s", goName)
diff --git a/generator/gen_typedef.go b/generator/gen_typedef.go
index 01384fe..f82ecc1 100644
--- a/generator/gen_typedef.go
+++ b/generator/gen_typedef.go
@@ -17,7 +17,7 @@ func (gen *Generator) writeTypeTypedef(wr io.Writer, decl *tl.CDecl, seenNames m
 		seenNames[string(goTypeName)] = true
 	}
 	fmt.Fprintf(wr, "// %s type as declared in %s\n", goTypeName,
-		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetType, decl.Name, decl.Position)))
+		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetType, decl.Name, decl.Position, string(goTypeName))))
 	fmt.Fprintf(wr, "type %s %s", goTypeName, goSpec.UnderlyingString())
 	writeSpace(wr, 1)
 }
@@ -31,7 +31,7 @@ func (gen *Generator) writeEnumTypedef(wr io.Writer, decl *tl.CDecl) {
 	typeRef := gen.tr.TranslateSpec(decl.Spec).UnderlyingString()
 	if typeName := string(goName); typeName != typeRef {
 		fmt.Fprintf(wr, "// %s as declared in %s\n", goName,
-			filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, cName, decl.Position)))
+			filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, cName, decl.Position, string(goName))))
 		fmt.Fprintf(wr, "type %s %s", goName, typeRef)
 		writeSpace(wr, 1)
 	}
@@ -70,7 +70,7 @@ func (gen *Generator) writeFunctionTypedef(wr io.Writer, decl *tl.CDecl, seenNam
 	goSpec := gen.tr.TranslateSpec(funcSpec, ptrTipRx.Self(), typeTipRx.Self())
 	goSpec.Raw = "" // not used in func typedef
 	fmt.Fprintf(wr, "// %s type as declared in %s\n", goFuncName,
-		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetFunction, decl.Name, decl.Position)))
+		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetFunction, decl.Name, decl.Position, string(goFuncName))))
 	fmt.Fprintf(wr, "type %s %s", goFuncName, goSpec)
 	gen.writeFunctionParams(wr, decl.Name, decl.Spec, false)
 	if len(returnRef) > 0 {
@@ -106,7 +106,7 @@ func (gen *Generator) writeStructTypedef(wr io.Writer, decl *tl.CDecl, raw bool,
 	if raw || !decl.Spec.IsComplete() {
 		// opaque struct
 		fmt.Fprintf(wr, "// %s as declared in %s\n", goName,
-			filepath.ToSlash(gen.tr.SrcLocation(tl.TargetType, cName, decl.Position)))
+			filepath.ToSlash(gen.tr.SrcLocation(tl.TargetType, cName, decl.Position, string(goName))))
 		fmt.Fprintf(wr, "type %s C.%s", goName, decl.Spec.CGoName())
 		writeSpace(wr, 1)
 		for _, helper := range gen.getRawStructHelpers(goName, cName, decl.Spec) {
@@ -116,7 +116,7 @@ func (gen *Generator) writeStructTypedef(wr io.Writer, decl *tl.CDecl, raw bool,
 	}
 
 	fmt.Fprintf(wr, "// %s as declared in %s\n", goName,
-		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetType, cName, decl.Position)))
+		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetType, cName, decl.Position, string(goName))))
 	fmt.Fprintf(wr, "type %s struct {", goName)
 	writeSpace(wr, 1)
 	gen.submitHelper(cgoAllocMap)
@@ -138,7 +138,7 @@ func (gen *Generator) writeUnionTypedef(wr io.Writer, decl *tl.CDecl) {
 
 	if typeName := string(goName); typeName != typeRef {
 		fmt.Fprintf(wr, "// %s as declared in %s\n", goName,
-			filepath.ToSlash(gen.tr.SrcLocation(tl.TargetType, cName, decl.Position)))
+			filepath.ToSlash(gen.tr.SrcLocation(tl.TargetType, cName, decl.Position, string(goName))))
 		fmt.Fprintf(wr, "const sizeof%s = unsafe.Sizeof(C.%s{})\n", goName, decl.Spec.CGoName())
 		fmt.Fprintf(wr, "type %s [sizeof%s]byte\n", goName, goName)
 		writeSpace(wr, 1)
diff --git a/translator/helpers.go b/translator/helpers.go
index 5075dd1..aa67ec5 100644
--- a/translator/helpers.go
+++ b/translator/helpers.go
@@ -54,7 +54,7 @@ func replaceBytes(buf []byte, idx []int, piece []byte) []byte {
 	return altered
 }
 
-var srcReferenceRx = regexp.MustCompile(`(?P<path>[^;]+);(?P<file>[^;]+);(?P<line>[^;]+);(?P<name>[^;]+);(?P<goname>[^;]+);`)
+var srcReferenceRx = regexp.MustCompile(`(?P<path>[^\x00]+)\x00(?P<file>[^\x00]+)\x00(?P<line>[^\x00]+)\x00(?P<name>[^\x00]+)\x00(?P<goname>[^\x00]+)\x00`)
 
 func (t *Translator) IsTokenIgnored(p token.Position) bool {
 	if len(t.ignoredFiles) == 0 {
@@ -68,7 +68,9 @@ func (t *Translator) IsTokenIgnored(p token.Position) bool {
 	return false
 }
 
-func (t *Translator) SrcLocation(docTarget RuleTarget, name string, p token.Position) string {
+// SrcLocation describes where the name is declared, using the documentation template if there is one.
+// The Go name of the declaration may be provided if it isn't what the rules of the target make of the name.
+func (t *Translator) SrcLocation(docTarget RuleTarget, name string, p token.Position, goNameOpt ...string) string {
 	filename := filepath.Base(p.Filename)
 	defaultLocation := func() string {
 		return fmt.Sprintf("%s:%d", narrowPath(p.Filename), p.Line)
@@ -99,10 +101,12 @@ func (t *Translator) SrcLocation(docTarget RuleTarget, name string, p token.Posi
 		return defaultLocation()
 	}
 
-	goName := t.TransformName(TargetGlobal, name, true)
-	goName = t.TransformName(TargetPostGlobal, string(goName), true)
-	values := fmt.Sprintf("%s;%s;%d;%s;%s;", narrowPath(p.Filename),
-		filename, p.Line, name, string(goName))
+	goName := string(t.TransformName(docTarget, name))
+	if len(goNameOpt) > 0 {
+		goName = goNameOpt[0]
+	}
+	values := fmt.Sprintf("%s\x00%s\x00%d\x00%s\x00%s\x00", narrowPath(p.Filename),
+		filename, p.Line, name, goName)
 	location := srcReferenceRx.ReplaceAllString(values, template)
 	return location
 }
-- 
2.43.0


From bd9c6bcfff549a8c5bf3f4e758aa5366f6b39cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 37/53] fix: macros without a value left a comment that
 documented the next constant

---
 generator/gen_const.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/generator/gen_const.go b/generator/gen_const.go
index 4d57eee..b76f859 100644
--- a/generator/gen_const.go
+++ b/generator/gen_const.go
@@ -25,7 +25,7 @@ func (gen *Generator) writeDefinesGroup(wr io.Writer, defines []*tl.CDecl) (n in
 			continue
 		}
 		literal, ok := constLiteral(decl.Value)
-		if decl.Value != nil && !ok {
+		if !ok && (decl.Value != nil || len(decl.Expression) == 0) {
 			continue
 		}
 		fmt.Fprintf(wr, "// %s as defined in %s\n", name,
@@ -33,11 +33,8 @@ func (gen *Generator) writeDefinesGroup(wr io.Writer, defines []*tl.CDecl) (n in
 
 		if ok {
 			fmt.Fprintf(wr, "%s = %s", name, literal)
-		} else if len(decl.Expression) > 0 {
-			fmt.Fprintf(wr, "%s = %s", name, decl.Expression)
 		} else {
-			// In this case, it's nil or the expression is zero length.
-			// fmt.Fprint(wr, name)
+			fmt.Fprintf(wr, "%s = %s", name, decl.Expression)
 		}
 		writeSpace(wr, 1)
 		n++
-- 
2.43.0


From 0f8c278a109183ceff8cfcdeea17ee9a651e6b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 38/53] fix: digits of extended suffixes became part of the
 number, imaginary constants became real

---
 translator/ast_walker.go |  6 +++++-
 translator/helpers.go    | 34 +++++++++++++++++++++++-----------
 translator/translator.go |  4 +++-
 3 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index dca8a72..25389b7 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -161,7 +161,11 @@ func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 							src = "^"
 						case len(runes) > 0 && isNumeric(runes):
 							// TODO(xlab): better const handling
-							src = readNumeric(runes)
+							num, ok := readNumeric(runes)
+							if !ok {
+								valid = false
+							}
+							src = num
 						case len(runes) > 0 && unicode.IsLetter(runes[0]), !isConstOperator(token.Ch):
 							// sizeof, a typecast or an operator Go has no integer for
 							valid = false
diff --git a/translator/helpers.go b/translator/helpers.go
index aa67ec5..6abbcb8 100644
--- a/translator/helpers.go
+++ b/translator/helpers.go
@@ -271,9 +271,11 @@ func isNumeric(v []rune) bool {
 }
 
 // readNumeric reads numeric part of the value, ex: -1000.f being read as -1000.
-func readNumeric(v []rune) string {
+// It fails if the suffix tells that this is not a real number.
+func readNumeric(v []rune) (string, bool) {
 	long := false
 	unsigned := false
+	suffix := false
 	result := make([]rune, 0, len(v))
 
 	var isHex, isFloat bool
@@ -304,8 +306,14 @@ func readNumeric(v []rune) string {
 	for _, r := range v {
 		switch r {
 		case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '-', '+':
-			result = append(result, r)
+			if !suffix {
+				result = append(result, r)
+			}
 		case 'x', 'X':
+			if suffix {
+				// ex: F32x
+				continue
+			}
 			isHex = true
 			result = append(result, r)
 		case '.':
@@ -316,28 +324,32 @@ func readNumeric(v []rune) string {
 			result = append(result, r)
 		case 'p', 'P':
 			if !isHex {
-				return wrap()
+				return wrap(), true
 			}
 			isFloat = true
 			result = append(result, r)
-		case 'b', 'B':
-			result = append(result, r)
-		case 'A', 'C', 'D', 'F', 'a', 'c', 'd', 'f':
-			if isHex && !isExponent(result) {
+		case 'A', 'B', 'C', 'D', 'F', 'a', 'b', 'c', 'd', 'f':
+			if !suffix && (isHex && !isExponent(result) || (r == 'b' || r == 'B') && string(result) == "0") {
 				result = append(result, r)
+			} else {
+				// ex: F64, bf16
+				suffix = true
 			}
 		// c'mon, get some roman numerals here
 		case 'L', 'l':
-			long = true
+			long, suffix = true, true
 			continue
 		case 'U', 'u':
-			unsigned = true
+			unsigned, suffix = true, true
 			continue
+		case 'i', 'I', 'j', 'J':
+			// imaginary
+			return "", false
 		default:
-			return wrap()
+			suffix = true
 		}
 	}
-	return wrap()
+	return wrap(), true
 }
 
 // isExponent checks if the hex value read so far has got a binary exponent.
diff --git a/translator/translator.go b/translator/translator.go
index 62cb5c5..e224d1b 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -488,7 +488,9 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 				default:
 					if runes := []rune(src); len(runes) > 0 && isNumeric(runes) {
 						// TODO(xlab): better const handling
-						src = readNumeric(runes)
+						if src, valid = readNumeric(runes); !valid {
+							break
+						}
 					}
 					exprParts = append(exprParts, src)
 					closeTypecasts()
-- 
2.43.0


From 4c0f1e7199765f381c6c49b40af134038d5c54bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 39/53] fix: constants made from defines of the configuration
 came out in random order

---
 parser/parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index e82125c..15aac9e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -8,6 +8,7 @@ import (
 	"os/exec"
 	"path/filepath"
 	"runtime"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -38,8 +39,13 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 
 	var predefined string
 	// user-provided defines take precedence
-	for name, value := range cfg.Defines {
-		switch v := value.(type) {
+	names := make([]string, 0, len(cfg.Defines))
+	for name := range cfg.Defines {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		switch v := cfg.Defines[name].(type) {
 		case string:
 			predefined += fmt.Sprintf("\n#define %s %s", name, stringLiteral(v))
 		case int, int16, int32, int64, uint, uint16, uint32, uint64:
-- 
2.43.0


From b35cc688b59758b5671bd60691b5f2efbd0b88c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:24 +0000
Subject: [PATCH 40/53] fix: comments on constants that are not from a file
 named the working directory

---
 translator/helpers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/translator/helpers.go b/translator/helpers.go
index 6abbcb8..3a3bb43 100644
--- a/translator/helpers.go
+++ b/translator/helpers.go
@@ -34,6 +34,10 @@ var (
 
 // narrowPath reduces full path to file name and parent dir only.
 func narrowPath(fp string) string {
+	if strings.HasPrefix(fp, "<") {
+		// not a file, ex: <predefined>
+		return fp
+	}
 	if !filepath.IsAbs(fp) {
 		if abs, err := filepath.Abs(fp); err != nil {
 			// seems to be reduced already
-- 
2.43.0


From 60525fe17cf5d5e4fb78c949a39e4527b30fa13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 41/53] fix: a macro and an enumerator of one name were both
 declared

---
 generator/gen_const.go | 3 ++-
 generator/generator.go | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/generator/gen_const.go b/generator/gen_const.go
index b76f859..3c6c997 100644
--- a/generator/gen_const.go
+++ b/generator/gen_const.go
@@ -14,7 +14,7 @@ import (
 	"modernc.org/cc/v4"
 )
 
-func (gen *Generator) writeDefinesGroup(wr io.Writer, defines []*tl.CDecl) (n int) {
+func (gen *Generator) writeDefinesGroup(wr io.Writer, defines []*tl.CDecl, namesSeen map[string]bool) (n int) {
 	writeStartConst(wr)
 	for _, decl := range defines {
 		if !decl.IsDefine {
@@ -36,6 +36,7 @@ func (gen *Generator) writeDefinesGroup(wr io.Writer, defines []*tl.CDecl) (n in
 		} else {
 			fmt.Fprintf(wr, "%s = %s", name, decl.Expression)
 		}
+		namesSeen[string(name)] = true
 		writeSpace(wr, 1)
 		n++
 	}
diff --git a/generator/generator.go b/generator/generator.go
index 83b0342..08e2edd 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -88,13 +88,13 @@ func (s declList) Less(i, j int) bool {
 
 func (gen *Generator) WriteConst(wr io.Writer) int {
 	var count int
+	tagsSeen := make(map[string]bool)
+	namesSeen := make(map[string]bool)
 	if defines := gen.tr.Defines(); len(defines) > 0 {
-		n := gen.writeDefinesGroup(wr, defines)
+		n := gen.writeDefinesGroup(wr, defines, namesSeen)
 		count = count + n
 	}
 	writeSpace(wr, 1)
-	tagsSeen := make(map[string]bool)
-	namesSeen := make(map[string]bool)
 
 	gen.submitHelper(cgoGenTag)
 	expandEnum := func(decl *tl.CDecl) bool {
-- 
2.43.0


From 967947f452ea2080ea8b0d051d853df5c299dad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 42/53] fix: constants declared many times were emitted many
 times

---
 generator/generator.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index 08e2edd..1f6c407 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -144,6 +144,15 @@ func (gen *Generator) WriteConst(wr io.Writer) int {
 			count++
 		}
 	}
+	// a constant may be declared many times, the declaration with its value prevails
+	constDecls := make(map[string]*tl.CDecl)
+	for _, decl := range gen.tr.Declares() {
+		prev, hasPrev := constDecls[decl.Name]
+		if !hasPrev || prev.Value == nil && len(prev.Expression) == 0 &&
+			(decl.Value != nil || len(decl.Expression) > 0) {
+			constDecls[decl.Name] = decl
+		}
+	}
 	for _, decl := range gen.tr.Declares() {
 		if decl.Spec.Kind() == tl.EnumKind {
 			if !decl.Spec.IsComplete() {
@@ -173,6 +182,9 @@ func (gen *Generator) WriteConst(wr io.Writer) int {
 		if !gen.tr.IsAcceptableName(tl.TargetPublic, decl.Name) {
 			continue
 		}
+		if constDecls[decl.Name] != decl {
+			continue
+		}
 		gen.writeConstDeclaration(wr, decl)
 		writeSpace(wr, 1)
 		count++
-- 
2.43.0


From 807dafa5160c133570b11e9ceaa6e43f5d08d45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 43/53] fix: tags seen first with a variable were declared
 under its name

---
 generator/generator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index 1f6c407..d046396 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -260,6 +260,12 @@ func (gen *Generator) WriteTypedefs(wr io.Writer) int {
 	for _, def := range tagDefs {
 		decl := def.tagDecl
 		tag := def.tagName
+		if !decl.IsTypedef && len(decl.Name) > 0 {
+			// the tag is defined here, not the variable that has been declared with it
+			tagDecl := *decl
+			tagDecl.Name = tag
+			decl = &tagDecl
+		}
 		switch decl.Spec.Kind() {
 		case tl.StructKind, tl.OpaqueStructKind:
 			if seenStructTags[tag] {
-- 
2.43.0


From aa801c8959824cf2ea809dea74c75dfdbb762ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 44/53] fix: types of one name were declared twice or, when
 named like a tag, not at all

---
 generator/gen_typedef.go | 14 ++++++++++++--
 generator/generator.go   | 37 +++++++++----------------------------
 2 files changed, 21 insertions(+), 30 deletions(-)

diff --git a/generator/gen_typedef.go b/generator/gen_typedef.go
index f82ecc1..09f8166 100644
--- a/generator/gen_typedef.go
+++ b/generator/gen_typedef.go
@@ -22,12 +22,17 @@ func (gen *Generator) writeTypeTypedef(wr io.Writer, decl *tl.CDecl, seenNames m
 	writeSpace(wr, 1)
 }
 
-func (gen *Generator) writeEnumTypedef(wr io.Writer, decl *tl.CDecl) {
+func (gen *Generator) writeEnumTypedef(wr io.Writer, decl *tl.CDecl, seenNames map[string]bool) {
 	cName, ok := getName(decl)
 	if !ok {
 		return
 	}
 	goName := gen.tr.TransformName(tl.TargetType, cName)
+	if seenNames[string(goName)] {
+		return
+	} else {
+		seenNames[string(goName)] = true
+	}
 	typeRef := gen.tr.TranslateSpec(decl.Spec).UnderlyingString()
 	if typeName := string(goName); typeName != typeRef {
 		fmt.Fprintf(wr, "// %s as declared in %s\n", goName,
@@ -128,12 +133,17 @@ func (gen *Generator) writeStructTypedef(wr io.Writer, decl *tl.CDecl, raw bool,
 	}
 }
 
-func (gen *Generator) writeUnionTypedef(wr io.Writer, decl *tl.CDecl) {
+func (gen *Generator) writeUnionTypedef(wr io.Writer, decl *tl.CDecl, seenNames map[string]bool) {
 	cName, ok := getName(decl)
 	if !ok {
 		return
 	}
 	goName := gen.tr.TransformName(tl.TargetType, cName)
+	if seenNames[string(goName)] {
+		return
+	} else {
+		seenNames[string(goName)] = true
+	}
 	typeRef := gen.tr.TranslateSpec(decl.Spec).UnderlyingString()
 
 	if typeName := string(goName); typeName != typeRef {
diff --git a/generator/generator.go b/generator/generator.go
index d046396..69a21c0 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -207,10 +207,7 @@ func (gen *Generator) WriteTypedefs(wr io.Writer) int {
 	typedefs := gen.tr.Typedefs()
 	seenStructTags := make(map[string]bool, len(typedefs))
 	seenUnionTags := make(map[string]bool, len(typedefs))
-	seenTypeNames := make(map[string]bool, len(typedefs))
-	seenStructNames := make(map[string]bool, len(typedefs))
-	seenUnionNames := make(map[string]bool, len(typedefs))
-	seenFunctionNames := make(map[string]bool, len(typedefs))
+	seenNames := make(map[string]bool, len(typedefs))
 	for _, decl := range typedefs {
 		if !gen.tr.IsAcceptableName(tl.TargetType, decl.Name) {
 			continue
@@ -218,39 +215,23 @@ func (gen *Generator) WriteTypedefs(wr io.Writer) int {
 		switch decl.Spec.Kind() {
 		case tl.StructKind, tl.OpaqueStructKind:
 			if tag := decl.Spec.GetTag(); len(tag) > 0 {
-				if len(decl.Name) == 0 || decl.Name == tag {
-					if seenStructTags[tag] {
-						continue
-					}
-				}
 				seenStructTags[tag] = true
 			}
 			memTip := gen.MemTipOf(decl)
-			gen.writeStructTypedef(wr, decl, memTip == tl.TipMemRaw, seenStructNames)
+			gen.writeStructTypedef(wr, decl, memTip == tl.TipMemRaw, seenNames)
 		case tl.UnionKind:
-			if len(decl.Name) > 0 {
-				if seenUnionNames[decl.Name] {
-					continue
-				}
-				seenUnionNames[decl.Name] = true
-			}
 			if tag := decl.Spec.GetTag(); len(tag) > 0 {
-				if len(decl.Name) == 0 || decl.Name == tag {
-					if seenUnionTags[tag] {
-						continue
-					}
-				}
 				seenUnionTags[tag] = true
 			}
-			gen.writeUnionTypedef(wr, decl)
+			gen.writeUnionTypedef(wr, decl, seenNames)
 		case tl.EnumKind:
 			if !decl.Spec.IsComplete() {
-				gen.writeEnumTypedef(wr, decl)
+				gen.writeEnumTypedef(wr, decl, seenNames)
 			}
 		case tl.TypeKind:
-			gen.writeTypeTypedef(wr, decl, seenTypeNames)
+			gen.writeTypeTypedef(wr, decl, seenNames)
 		case tl.FunctionKind:
-			gen.writeFunctionTypedef(wr, decl, seenFunctionNames)
+			gen.writeFunctionTypedef(wr, decl, seenNames)
 		}
 		writeSpace(wr, 1)
 		count++
@@ -277,9 +258,9 @@ func (gen *Generator) WriteTypedefs(wr io.Writer) int {
 				continue
 			}
 			if memTipRx, ok := gen.tr.MemTipRx(tag); ok {
-				gen.writeStructTypedef(wr, decl, memTipRx.Self() == tl.TipMemRaw, seenStructNames)
+				gen.writeStructTypedef(wr, decl, memTipRx.Self() == tl.TipMemRaw, seenNames)
 			} else {
-				gen.writeStructTypedef(wr, decl, false, seenStructNames)
+				gen.writeStructTypedef(wr, decl, false, seenNames)
 			}
 			writeSpace(wr, 1)
 			count++
@@ -292,7 +273,7 @@ func (gen *Generator) WriteTypedefs(wr io.Writer) int {
 			} else if !gen.tr.IsAcceptableName(tl.TargetType, tag) {
 				continue
 			}
-			gen.writeUnionTypedef(wr, decl)
+			gen.writeUnionTypedef(wr, decl, seenNames)
 			writeSpace(wr, 1)
 			count++
 		}
-- 
2.43.0


From 5d669ad776a2ef1140448a4f0c251ea531be1919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 45/53] fix: typedefs and variables of enumerations without
 members were not valid Go

---
 generator/gen_declares.go | 2 +-
 generator/gen_typedef.go  | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/generator/gen_declares.go b/generator/gen_declares.go
index 8b3c1d3..925ec9b 100644
--- a/generator/gen_declares.go
+++ b/generator/gen_declares.go
@@ -42,7 +42,7 @@ func (gen *Generator) writeEnumDeclaration(wr io.Writer, decl *tl.CDecl,
 	cName, _ := getName(decl)
 	goName := checkName(gen.tr.TransformName(tl.TargetType, cName, public))
 	typeRef := gen.tr.TranslateSpec(decl.Spec, ptrTip, typeTip).String()
-	fmt.Fprintf(wr, "%s %s", goName, typeRef)
+	fmt.Fprintf(wr, "var %s %s", goName, typeRef)
 	writeSpace(wr, 1)
 }
 
diff --git a/generator/gen_typedef.go b/generator/gen_typedef.go
index 09f8166..d23fd39 100644
--- a/generator/gen_typedef.go
+++ b/generator/gen_typedef.go
@@ -34,6 +34,11 @@ func (gen *Generator) writeEnumTypedef(wr io.Writer, decl *tl.CDecl, seenNames m
 		seenNames[string(goName)] = true
 	}
 	typeRef := gen.tr.TranslateSpec(decl.Spec).UnderlyingString()
+	if len(typeRef) == 0 {
+		// nothing is known about the members
+		spec := decl.Spec.Copy().(*tl.CEnumSpec)
+		typeRef = gen.tr.TranslateSpec(spec.PromoteType(nil)).String()
+	}
 	if typeName := string(goName); typeName != typeRef {
 		fmt.Fprintf(wr, "// %s as declared in %s\n", goName,
 			filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, cName, decl.Position, string(goName))))
-- 
2.43.0


From f8dd18618c0149990a2e9069af0fead72b0b26dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 46/53] fix: structs that have a typedef for their pointers
 only were named C.struct_

---
 translator/ast_walker.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 25389b7..cba35b6 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -406,6 +406,13 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 				s.Typedef = typedefNameOf(handle)
 			}
 		}
+		if len(s.Tag) == 0 && len(typedefNameOf(typ)) == 0 && len(spec.InnerArr) == 0 && len(typedefNameOf(handle)) > 0 {
+			// the struct has no name, not even for cgo, other than the one of its handles
+			s.Members = nil
+			if !isRet {
+				s.Typedef = typedefNameOf(handle)
+			}
+		}
 		return s
 	case cc.Function:
 		s := t.functionSpec(spec, typ, name, isConst, deep+1)
-- 
2.43.0


From af5d9c70b8d3b36cebcc7a78b262bcef2f6b43d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:28 +0000
Subject: [PATCH 47/53] fix: C types at a level of arrays of arrays had other
 sizes and lost the arrays pointed to

---
 translator/array_spec.go    |  8 ++++----
 translator/model_go_type.go | 28 ++++++++++++++--------------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/translator/array_spec.go b/translator/array_spec.go
index dd215b1..a70f125 100644
--- a/translator/array_spec.go
+++ b/translator/array_spec.go
@@ -31,9 +31,9 @@ func (a ArraySpec) Sizes() (sizes []ArraySizeSpec) {
 	}
 	arr := string(a)
 	for len(arr) > 0 {
-		// get "n" from "[k][l][m][n]"
-		p1 := strings.LastIndexByte(arr, '[')
-		p2 := strings.LastIndexByte(arr, ']')
+		// get "k" from "[k][l][m][n]"
+		p1 := strings.IndexByte(arr, '[')
+		p2 := strings.IndexByte(arr, ']')
 		part := arr[p1+1 : p2]
 		// and try to convert uint64
 		if u, err := strconv.ParseUint(part, 10, 64); err != nil || u == 0 {
@@ -42,7 +42,7 @@ func (a ArraySpec) Sizes() (sizes []ArraySizeSpec) {
 		} else {
 			sizes = append(sizes, ArraySizeSpec{N: u})
 		}
-		arr = arr[:p1]
+		arr = arr[p2+1:]
 	}
 	return sizes
 }
diff --git a/translator/model_go_type.go b/translator/model_go_type.go
index 723f9e6..f6f819c 100644
--- a/translator/model_go_type.go
+++ b/translator/model_go_type.go
@@ -154,15 +154,13 @@ func (spec CGoSpec) String() string {
 }
 
 func (spec *CGoSpec) PointersAtLevel(level uint8) uint8 {
-	if int(level) > len(spec.OuterArr) {
-		if delta := int(spec.Pointers) + len(spec.OuterArr.Sizes()) - int(level); delta > 0 {
+	if outer := len(spec.OuterArr.Sizes()); int(level) > outer {
+		if delta := int(spec.Pointers) + outer - int(level); delta > 0 {
 			return uint8(delta)
 		}
+		return 0
 	}
-	if level <= spec.Pointers {
-		return spec.Pointers - level
-	}
-	return 0
+	return spec.Pointers
 }
 
 func (spec *CGoSpec) AtLevel(level uint8) string {
@@ -188,8 +186,7 @@ func (spec *CGoSpec) AtLevel(level uint8) string {
 	} else {
 		buf.WriteString(ptrs(spec.Pointers))
 	}
-	// drop inner arrays at levels
-	// buf.WriteString(arrs(spec.InnerArr))
+	buf.WriteString(arrs(spec.InnerArr))
 	buf.WriteString(spec.Base)
 
 	return buf.String()
@@ -197,9 +194,8 @@ func (spec *CGoSpec) AtLevel(level uint8) string {
 
 func (spec *CGoSpec) SpecAtLevel(level uint8) CGoSpec {
 	buf := CGoSpec{
-		// drop inner arrays at levels
-		// InnerArr: spec.InnerArr,
-		Base: spec.Base,
+		InnerArr: spec.InnerArr,
+		Base:     spec.Base,
 	}
 	for i, size := range spec.OuterArr.Sizes() {
 		if i < int(level) {
@@ -208,10 +204,14 @@ func (spec *CGoSpec) SpecAtLevel(level uint8) CGoSpec {
 			buf.Pointers = 1
 			continue
 		}
-		buf.OuterArr.AddSized(size.N)
+		if len(size.Str) > 0 {
+			buf.OuterArr += ArraySpec("[" + size.Str + "]")
+		} else {
+			buf.OuterArr.AddSized(size.N)
+		}
 	}
-	if int(level) > len(spec.OuterArr) {
-		if delta := int(spec.Pointers) + len(spec.OuterArr.Sizes()) - int(level); delta > 0 {
+	if outer := len(spec.OuterArr.Sizes()); int(level) > outer {
+		if delta := int(spec.Pointers) + outer - int(level); delta > 0 {
 			buf.Pointers += uint8(delta)
 		}
 	} else {
-- 
2.43.0


From fb24b4d2d96032698529c5b49b2a637e6a533d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:28 +0000
Subject: [PATCH 48/53] fix: helpers of void** were not named by an identifier

---
 generator/gen_bindings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index 46e9643..8226ec2 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -67,7 +67,7 @@ func getHelperName(goSpec tl.GoTypeSpec) string {
 	if goSpec.Unsigned {
 		buf.WriteRune('U')
 	}
-	buf.WriteString(strings.Title(goSpec.PlainType()))
+	buf.WriteString(strings.Title(strings.TrimPrefix(goSpec.PlainType(), "unsafe.")))
 	return buf.String()
 }
 
-- 
2.43.0


From 763b24e4242e22ca77fd6bb2d75c70b10c126e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:28 +0000
Subject: [PATCH 49/53] fix: arrays and slices of structs with the raw memory
 tip were passed by their PassValue

---
 generator/gen_bindings.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index 8226ec2..fb8548f 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -428,14 +428,14 @@ func goSpecArg(goSpec tl.GoTypeSpec, isArg bool) string {
 	return goSpec.String()
 }
 
-func (gen *Generator) getUnpackHelper(goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec, isArg bool) *Helper {
+func (gen *Generator) getUnpackHelper(memTip tl.Tip, goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec, isArg bool) *Helper {
 	name := "unpack"
 	if isArg {
 		name += "Arg" + getHelperName(goSpec)
 	} else {
 		name += getHelperName(goSpec)
 	}
-	name = gen.distinctName(name, fmt.Sprint(goSpec, " ", cgoSpec))
+	name = gen.distinctName(name, fmt.Sprint(goSpec, " ", cgoSpec, " ", memTip == tl.TipMemRaw))
 	code := new(bytes.Buffer)
 	fmt.Fprintf(code, "func %s(x %s) (unpacked %s, allocs *cgoAllocMap) {\n",
 		name, goSpecArg(goSpec, isArg), cgoSpecArg(cgoSpec, 0, isArg))
@@ -460,7 +460,7 @@ func (gen *Generator) getUnpackHelper(goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec,
 		level++
 	}
 	isSlice := goSpec.Slices > 0
-	isPlain := goSpec.IsPlain() || goSpec.IsPlainKind()
+	isPlain := (memTip == tl.TipMemRaw) || goSpec.IsPlain() || goSpec.IsPlainKind()
 
 	switch {
 	case isPlain && isSlice:
@@ -504,7 +504,7 @@ func (gen *Generator) proxyValueFromGo(memTip tl.Tip, name string,
 	case !isPlain && (goSpec.Slices > 0 || len(goSpec.OuterArr) > 0), // ex: []string
 		isPlain && goSpec.Slices > 0 && len(goSpec.OuterArr) > 0, // ex: [4][]byte
 		isPlain && goSpec.Slices > 1:                             // ex: [][]byte
-		helper := gen.getUnpackHelper(goSpec, cgoSpec, false)
+		helper := gen.getUnpackHelper(memTip, goSpec, cgoSpec, false)
 		gen.submitHelper(helper)
 		proxy = fmt.Sprintf("%s(%s)", helper.Name, name)
 		return proxy, helper.Nillable
@@ -559,7 +559,7 @@ func (gen *Generator) proxyArgFromGo(memTip tl.Tip, name string,
 	case !isPlain && (goSpec.Slices > 0 || len(goSpec.OuterArr) > 0), // ex: []string
 		isPlain && goSpec.Slices > 0 && len(goSpec.OuterArr) > 0, // ex: [4][]byte
 		isPlain && goSpec.Slices > 1:                             // ex: [][]byte
-		helper := gen.getUnpackHelper(goSpec, cgoSpec, true)
+		helper := gen.getUnpackHelper(memTip, goSpec, cgoSpec, true)
 		gen.submitHelper(helper)
 		proxy = fmt.Sprintf("%s(%s)", helper.Name, name)
 		return proxy, helper.Nillable
@@ -992,7 +992,7 @@ func (gen *Generator) createProxies(funcName string, funcSpec tl.CType) (from, t
 			to = append(to, proxyDecl{Name: refName, Decl: keepaliveDecl})
 		}
 
-		isPlain := goSpec.IsPlain() || goSpec.IsPlainKind()
+		isPlain := (argTip == tl.TipMemRaw) || goSpec.IsPlain() || goSpec.IsPlainKind()
 		switch {
 		case !isPlain && (goSpec.Slices > 0 || len(goSpec.OuterArr) > 0), // ex: []string
 			isPlain && goSpec.Slices > 0 && len(goSpec.OuterArr) > 0, // ex: [4][]byte
-- 
2.43.0


From a8032ec55c2eeb091edd78dd068377ddff0e8725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:28 +0000
Subject: [PATCH 50/53] fix: levels of typedefs of pointers and arrays were
 counted twice

---
 translator/translator.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/translator/translator.go b/translator/translator.go
index e224d1b..901b17d 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -767,7 +767,7 @@ func (t *Translator) TranslateSpec(spec CType, tips ...Tip) GoTypeSpec {
 
 	switch spec.Kind() {
 	case TypeKind:
-		typeSpec := spec.(*CTypeSpec)
+		typeSpec := t.derivedSpec(spec.(*CTypeSpec))
 		lookupSpec := CTypeSpec{
 			Base:     typeSpec.Base,
 			Const:    typeSpec.Const,
@@ -1001,6 +1001,20 @@ func (t *Translator) residualPointers(spec CType) uint8 {
 	return pointers
 }
 
+// derivedSpec returns the spec without the typedef it is named by if there are pointers or arrays
+// under the typedef, as these are counted in the spec already.
+// e.g. typedef int* tp; void f(tp arg);
+// -> go_F(C.int *arg) but not go_F(C.tp *arg).
+func (t *Translator) derivedSpec(spec *CTypeSpec) *CTypeSpec {
+	decl, known := t.typedefsSet[spec.Raw]
+	if !known || decl.Spec.GetPointers() == 0 && len(decl.Spec.OuterArrays()) == 0 {
+		return spec
+	}
+	derived := *spec
+	derived.Raw = ""
+	return &derived
+}
+
 func (t *Translator) CGoSpec(spec CType, asArg bool) CGoSpec {
 	cgo := CGoSpec{
 		Pointers: t.residualPointers(spec),
@@ -1008,6 +1022,8 @@ func (t *Translator) CGoSpec(spec CType, asArg bool) CGoSpec {
 		InnerArr: spec.InnerArrays(),
 	}
 	if typ, ok := spec.(*CTypeSpec); ok {
+		typ = t.derivedSpec(typ)
+		spec = typ
 		if typ.Base == "void*" {
 			if len(typ.Raw) == 0 {
 				cgo.Base = "unsafe.Pointer"
-- 
2.43.0


From 9b0de9a341f8fc08974514d530d9f567cd7560d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 51/53] fix: pointers to strings had no helpers

---
 translator/translator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/translator/translator.go b/translator/translator.go
index 901b17d..93d5d61 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -862,6 +862,10 @@ func (t *Translator) TranslateSpec(spec CType, tips ...Tip) GoTypeSpec {
 						// the levels are inside of the array
 						gospec.Pointers += gospec.Slices
 						gospec.Slices = 0
+					} else if gospec.Base == "string" {
+						// only slices of strings have helpers
+						gospec.Slices += gospec.Pointers
+						gospec.Pointers = 0
 					}
 					if gospec.Kind == TypeKind {
 						if gospec.IsPlain() {
-- 
2.43.0


From d51edb48f0f3909af82aabc162a4ac86ee156ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:12 +0000
Subject: [PATCH 52/53] fix: typedefs of const unsigned char* as strings were
 declared as ustring

---
 translator/model_go_type.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/translator/model_go_type.go b/translator/model_go_type.go
index f6f819c..31b5e69 100644
--- a/translator/model_go_type.go
+++ b/translator/model_go_type.go
@@ -127,7 +127,10 @@ func (spec GoTypeSpec) UnderlyingString() string {
 	buf.WriteString(arrs(spec.InnerArr))
 
 	if spec.Unsigned {
-		buf.WriteString("u")
+		switch spec.Base {
+		case "char", "short", "long", "int":
+			buf.WriteString("u")
+		}
 	}
 	buf.WriteString(spec.Base)
 	if spec.Bits > 0 {
-- 
2.43.0


From 5a1f310d1f2d6dc92b33ea47cc1516d12333f1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:40 +0000
Subject: [PATCH 53/53] fix: sizes of arrays of arrays are taken from the
 outermost array on at levels

---
 translator/array_spec.go         |  8 ++++----
 translator/model_enum.go         |  2 +-
 translator/model_go_type.go      | 13 +++++++++++--
 translator/model_struct_union.go |  2 +-
 translator/model_type.go         |  2 +-
 5 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/translator/array_spec.go b/translator/array_spec.go
index a70f125..dd215b1 100644
--- a/translator/array_spec.go
+++ b/translator/array_spec.go
@@ -31,9 +31,9 @@ func (a ArraySpec) Sizes() (sizes []ArraySizeSpec) {
 	}
 	arr := string(a)
 	for len(arr) > 0 {
-		// get "k" from "[k][l][m][n]"
-		p1 := strings.IndexByte(arr, '[')
-		p2 := strings.IndexByte(arr, ']')
+		// get "n" from "[k][l][m][n]"
+		p1 := strings.LastIndexByte(arr, '[')
+		p2 := strings.LastIndexByte(arr, ']')
 		part := arr[p1+1 : p2]
 		// and try to convert uint64
 		if u, err := strconv.ParseUint(part, 10, 64); err != nil || u == 0 {
@@ -42,7 +42,7 @@ func (a ArraySpec) Sizes() (sizes []ArraySizeSpec) {
 		} else {
 			sizes = append(sizes, ArraySizeSpec{N: u})
 		}
-		arr = arr[p2+1:]
+		arr = arr[:p1]
 	}
 	return sizes
 }
diff --git a/translator/model_enum.go b/translator/model_enum.go
index dbaa5f1..4c36f7b 100644
--- a/translator/model_enum.go
+++ b/translator/model_enum.go
@@ -137,7 +137,7 @@ func (c *CEnumSpec) IsConst() bool {
 func (c CEnumSpec) AtLevel(level int) CType {
 	spec := c
 	var outerArrSpec ArraySpec
-	for i, size := range spec.OuterArr.Sizes() {
+	for i, size := range outerSizes(spec.OuterArr) {
 		if i < int(level) {
 			continue
 		} else if i == 0 {
diff --git a/translator/model_go_type.go b/translator/model_go_type.go
index 31b5e69..ed011f1 100644
--- a/translator/model_go_type.go
+++ b/translator/model_go_type.go
@@ -168,7 +168,7 @@ func (spec *CGoSpec) PointersAtLevel(level uint8) uint8 {
 
 func (spec *CGoSpec) AtLevel(level uint8) string {
 	buf := new(bytes.Buffer)
-	outerArrSizes := spec.OuterArr.Sizes()
+	outerArrSizes := outerSizes(spec.OuterArr)
 	for i, size := range outerArrSizes {
 		if i < int(level) {
 			continue
@@ -200,7 +200,7 @@ func (spec *CGoSpec) SpecAtLevel(level uint8) CGoSpec {
 		InnerArr: spec.InnerArr,
 		Base:     spec.Base,
 	}
-	for i, size := range spec.OuterArr.Sizes() {
+	for i, size := range outerSizes(spec.OuterArr) {
 		if i < int(level) {
 			continue
 		} else if i == 0 {
@@ -223,6 +223,15 @@ func (spec *CGoSpec) SpecAtLevel(level uint8) CGoSpec {
 	return buf
 }
 
+// outerSizes returns the sizes of an array of arrays, that of the outermost array first.
+func outerSizes(spec ArraySpec) []ArraySizeSpec {
+	sizes := spec.Sizes()
+	for i, j := 0, len(sizes)-1; i < j; i, j = i+1, j-1 {
+		sizes[i], sizes[j] = sizes[j], sizes[i]
+	}
+	return sizes
+}
+
 func ptrs(n uint8) string {
 	return strings.Repeat("*", int(n))
 }
diff --git a/translator/model_struct_union.go b/translator/model_struct_union.go
index 930c15f..6e71950 100644
--- a/translator/model_struct_union.go
+++ b/translator/model_struct_union.go
@@ -137,7 +137,7 @@ func (c *CStructSpec) IsConst() bool {
 func (c CStructSpec) AtLevel(level int) CType {
 	spec := c
 	var outerArrSpec ArraySpec
-	for i, size := range spec.OuterArr.Sizes() {
+	for i, size := range outerSizes(spec.OuterArr) {
 		if i < int(level) {
 			continue
 		} else if i == 0 {
diff --git a/translator/model_type.go b/translator/model_type.go
index 347894e..167a0b6 100644
--- a/translator/model_type.go
+++ b/translator/model_type.go
@@ -143,7 +143,7 @@ func (c *CTypeSpec) IsConst() bool {
 func (c CTypeSpec) AtLevel(level int) CType {
 	spec := c
 	var outerArrSpec ArraySpec
-	for i, size := range spec.OuterArr.Sizes() {
+	for i, size := range outerSizes(spec.OuterArr) {
 		if i < int(level) {
 			continue
 		} else if i == 0 {
-- 
2.43.0

