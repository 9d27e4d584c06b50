From d6f1bec8fada3d1b3b0ab856998d81a2f311db95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 01/22] fix: do not let a comment opener close or re-open its
 own comment

The second character of -- and /* was read again as comment content, so
--- ended a line comment at once and /*/ was taken for a complete block
comment.
---
 lexer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lexer.go b/lexer.go
index 235197c..7e9f512 100644
--- a/lexer.go
+++ b/lexer.go
@@ -131,10 +131,12 @@ func (lex *MyLexer) Lex(lval *yySymType) int {
 			lastWasNumber = false
 			continue
 		} else if r == '-' && lex.peekRune() == '-' {
+			lex.discard(1)
 			lex.skipLineComment()
 			lastWasNumber = false
 			continue
 		} else if r == '/' && lex.peekRune() == '*' {
+			lex.discard(1)
 			lex.skipBlockComment()
 			lastWasNumber = false
 			continue
-- 
2.43.0


From 6163a68da0e6c2b0784499f021f392c747670e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 02/22] fix: do not keep pointers into the parser stack in the
 AST

A component's default value and the first reference of an object
identifier value pointed into the parser's stack, which later input
overwrites.
---
 asn1.y | 4 ++--
 y.go   | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/asn1.y b/asn1.y
index e3ebfb9..c32c9c4 100644
--- a/asn1.y
+++ b/asn1.y
@@ -735,7 +735,7 @@ ComponentTypeList : ComponentType  { $$ = append(make(ComponentTypeList, 0), $1)
 
 ComponentType : NamedType  { $$ = NamedComponentType{NamedType: $1} }
               | NamedType OPTIONAL  { $$ = NamedComponentType{NamedType: $1, IsOptional: true} }
-              | NamedType DEFAULT Value  { $$ = NamedComponentType{NamedType: $1, Default: &$3} }
+              | NamedType DEFAULT Value  { cpy := $3; $$ = NamedComponentType{NamedType: $1, Default: &cpy} }
               | COMPONENTS OF Type  { $$ = ComponentsOfComponentType{Type: $3} }
 ;
 
@@ -825,7 +825,7 @@ ObjectIdentifierType : OBJECT IDENTIFIER  { $$ = ObjectIdentifierType{} }
 // 31.3
 
 ObjectIdentifierValue : OPEN_CURLY ObjIdComponentsList CLOSE_CURLY  { $$ = $2 }
-                      | OPEN_CURLY DefinedValue ObjIdComponentsList CLOSE_CURLY  { $$ = append(ObjectIdentifierValue{ObjectIdElement{Reference: &$2}}, $3...) }
+                      | OPEN_CURLY DefinedValue ObjIdComponentsList CLOSE_CURLY  { cpy := $2; $$ = append(ObjectIdentifierValue{ObjectIdElement{Reference: &cpy}}, $3...) }
 ;
 
 ObjIdComponentsList :  ObjIdComponents  { $$ = ObjectIdentifierValue{$1}  }
diff --git a/y.go b/y.go
index 89762b0..7a09dd6 100644
--- a/y.go
+++ b/y.go
@@ -1670,7 +1670,8 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line asn1.y:738
 		{
-			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, Default: &yyDollar[3].Value}
+			cpy := yyDollar[3].Value
+			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, Default: &cpy}
 		}
 	case 153:
 		yyDollar = yyS[yypt-3 : yypt+1]
@@ -1874,7 +1875,8 @@ yydefault:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line asn1.y:828
 		{
-			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{ObjectIdElement{Reference: &yyDollar[2].DefinedValue}}, yyDollar[3].ObjectIdentifierValue...)
+			cpy := yyDollar[2].DefinedValue
+			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{ObjectIdElement{Reference: &cpy}}, yyDollar[3].ObjectIdentifierValue...)
 		}
 	case 189:
 		yyDollar = yyS[yypt-1 : yypt+1]
-- 
2.43.0


From 0080520e886927818c532adcb2c6550dc1f04f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 03/22] fix: import encoding/asn1 when a CHOICE generates
 asn1.RawValue

---
 codegen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codegen.go b/codegen.go
index 005441d..e25b6a2 100644
--- a/codegen.go
+++ b/codegen.go
@@ -336,6 +336,7 @@ func numberToExpr(val Number, repr IntegerRepr) goast.Expr {
 
 func (ctx *moduleContext) generateChoiceType(t ChoiceType, isSet *bool) goast.Expr {
 	if ctx.hasTaggedAlternatives(t) {
+		ctx.requireModule("encoding/asn1")
 		return goast.NewIdent("asn1.RawValue")
 	}
 	if len(t.AlternativeTypeList) == 1 {
-- 
2.43.0


From 36ab63f3336e5a856a71cd6adc455f021d5b53d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 04/22] fix: resolve UTCTime as a useful type

Every use of UTCTime failed with 'can not resolve TypeReference UTCTime'.
---
 ast.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 075e99d..5ac5cb1 100644
--- a/ast.go
+++ b/ast.go
@@ -729,10 +729,12 @@ const (
 var (
 	// USEFUL_TYPES are defined in X.680, section 41.
 	// These are built-in types that behave like type assignments that are always in scope.
-	// TODO: clarify why UTCTimeName is missing here.
 	USEFUL_TYPES map[string]Type = map[string]Type{
 		GeneralizedTimeName: TaggedType{ // [UNIVERSAL 24] IMPLICIT VisibleString
 			Tag:  Tag{Class: CLASS_UNIVERSAL, ClassNumber: Number(24)},
 			Type: RestrictedStringType{VisibleString}},
+		UTCTimeName: TaggedType{ // [UNIVERSAL 23] IMPLICIT VisibleString
+			Tag:  Tag{Class: CLASS_UNIVERSAL, ClassNumber: Number(23)},
+			Type: RestrictedStringType{VisibleString}},
 	}
 )
-- 
2.43.0


From cca87d16295f01c9a7ab55e624bb73f0f900be37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 05/22] fix: do not name a type as a set because its element
 type is one

---
 codegen.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codegen.go b/codegen.go
index e25b6a2..bf22c06 100644
--- a/codegen.go
+++ b/codegen.go
@@ -247,10 +247,12 @@ func (ctx *moduleContext) generateTypeBody(typeDescr Type, isSet *bool) goast.Ex
 		*isSet = true
 		return ctx.structFromComponents(t.Components, t.ExtensionAdditions)
 	case SequenceOfType:
-		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, isSet)}
+		var elementIsSet bool // only the outermost type decides whether declaration is a set
+		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, &elementIsSet)}
 	case SetOfType:
 		*isSet = true
-		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, isSet)}
+		var elementIsSet bool
+		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, &elementIsSet)}
 	case TaggedType: // TODO should put tags in go code?
 		return ctx.generateTypeBody(t.Type, isSet)
 	case ConstraintedType: // TODO should generate checking code?
-- 
2.43.0


From 1ecc3e7a41b08eb0a5380b6eb7e577e6f76a88bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 06/22] fix: report read failures instead of hanging or
 dropping them

A read error other than io.EOF made peekRunes and both comment skippers
loop forever, was dropped by a look-ahead, and ended words and numbers as
if the input were complete.
---
 lexer.go | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/lexer.go b/lexer.go
index 7e9f512..b31e55b 100644
--- a/lexer.go
+++ b/lexer.go
@@ -108,6 +108,9 @@ type MyLexer struct {
 
 	// lineNo is 0-indexed line number used for error reporting.
 	lineNo int
+
+	// readErr is the first error other than io.EOF returned by bufReader.
+	readErr error
 }
 
 // Lex implements yyLexer.
@@ -253,13 +256,24 @@ func (lex *MyLexer) unreadRune() error {
 }
 
 func (lex *MyLexer) readRune() (rune, int, error) {
+	if lex.readErr != nil {
+		return 0, 0, lex.readErr
+	}
 	r, n, err := lex.bufReader.ReadRune()
+	lex.noteReadError(err)
 	if isNewline(r) {
 		lex.lineNo += 1
 	}
 	return r, n, err
 }
 
+// noteReadError remembers read failure, as bufReader reports it only once.
+func (lex *MyLexer) noteReadError(err error) {
+	if err != nil && err != io.EOF && lex.readErr == nil {
+		lex.readErr = err
+	}
+}
+
 func (lex *MyLexer) peekRune() rune {
 	r, _ := lex.peekRuneE()
 	return r
@@ -275,15 +289,15 @@ func (lex *MyLexer) peekRunes(n int) string {
 	for n > 0 {
 		for l := 1; l <= utf8.UTFMax; l++ {
 			buf, err := lex.bufReader.Peek(pos + l)
-			slice := buf[pos : pos+l]
-			if pos+l <= len(buf) && utf8.FullRune(slice) {
-				r, size := utf8.DecodeRune(slice)
+			if pos+l <= len(buf) && utf8.FullRune(buf[pos:pos+l]) {
+				r, size := utf8.DecodeRune(buf[pos : pos+l])
 				acc.WriteRune(r)
 				pos += size
 				n -= 1
 				break
 			}
-			if err == io.EOF { // TODO if it is not a full rune, will swallow the error
+			if err != nil { // TODO if it is not a full rune, will swallow the error
+				lex.noteReadError(err)
 				return acc.String()
 			}
 		}
@@ -293,6 +307,7 @@ func (lex *MyLexer) peekRunes(n int) string {
 
 func (lex *MyLexer) peekRuneE() (rune, error) {
 	r, _, err := lex.bufReader.ReadRune()
+	lex.noteReadError(err)
 	if err == nil {
 		lex.bufReader.UnreadRune()
 	}
@@ -303,7 +318,7 @@ func (lex *MyLexer) skipLineComment() {
 	lastIsHyphen := false
 	for {
 		r, _, err := lex.readRune()
-		if isNewline(r) || err == io.EOF {
+		if isNewline(r) || err != nil {
 			return
 		} else if r == '-' {
 			if lastIsHyphen {
@@ -321,7 +336,7 @@ func (lex *MyLexer) skipBlockComment() {
 	lastIsClosingStar := false
 	for {
 		r, _, err := lex.readRune()
-		if err == io.EOF {
+		if err != nil {
 			return
 		}
 		if r == '/' {
@@ -351,6 +366,9 @@ func (lex *MyLexer) consumeWord() (string, error) {
 	lastR := r
 	for {
 		r, _, err := lex.readRune()
+		if err != nil && err != io.EOF {
+			return "", fmt.Errorf("failed to read: %v", err.Error())
+		}
 		if err == io.EOF || isWhitespace(r) || !isIdentifierChar(r) {
 			label := acc.String()
 			if label[len(label)-1] == '-' {
@@ -361,9 +379,6 @@ func (lex *MyLexer) consumeWord() (string, error) {
 			}
 			return label, nil
 		}
-		if err != nil {
-			return "", fmt.Errorf("failed to read: %v", err.Error())
-		}
 		if !isIdentifierChar(r) {
 			acc.WriteRune(r)
 			return "", fmt.Errorf("expected valid identifier char, got '%c' while reading '%v'", r, acc.String())
@@ -386,6 +401,10 @@ func (lex *MyLexer) consumeNumber(lval *yySymType) int {
 	acc.WriteRune(r)
 	for {
 		r, _, err := lex.readRune()
+		if err != nil && err != io.EOF {
+			lex.Error(fmt.Sprintf("Failed to read: %v", err.Error()))
+			return -1
+		}
 		if err == io.EOF || !unicode.IsDigit(r) {
 			if err == nil && !unicode.IsDigit(r) {
 				lex.unreadRune()
@@ -400,10 +419,6 @@ func (lex *MyLexer) consumeNumber(lval *yySymType) int {
 			lval.Number = Number(i)
 			return NUMBER
 		}
-		if err != nil {
-			lex.Error(fmt.Sprintf("Failed to read: %v", err.Error()))
-			return -1
-		}
 		acc.WriteRune(r)
 	}
 }
-- 
2.43.0


From 2a3941411497b654e73f1171ce0878906bb29caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:03 +0000
Subject: [PATCH 07/22] fix: count CR LF as one line break in error positions

---
 lexer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index b31e55b..4d75c0d 100644
--- a/lexer.go
+++ b/lexer.go
@@ -108,6 +108,8 @@ type MyLexer struct {
 
 	// lineNo is 0-indexed line number used for error reporting.
 	lineNo int
+	// lastWasCR is set when previous rune was a carriage return, so that CR LF counts as one line break.
+	lastWasCR bool
 
 	// readErr is the first error other than io.EOF returned by bufReader.
 	readErr error
@@ -252,6 +254,7 @@ func (lex *MyLexer) unreadRune() error {
 	if isNewline(lex.peekRune()) {
 		lex.lineNo -= 1
 	}
+	lex.lastWasCR = false
 	return r
 }
 
@@ -261,9 +264,10 @@ func (lex *MyLexer) readRune() (rune, int, error) {
 	}
 	r, n, err := lex.bufReader.ReadRune()
 	lex.noteReadError(err)
-	if isNewline(r) {
+	if isNewline(r) && !(r == '\n' && lex.lastWasCR) {
 		lex.lineNo += 1
 	}
+	lex.lastWasCR = r == '\r'
 	return r, n, err
 }
 
-- 
2.43.0


From 8f2b9cb128a428d351af3fdd01140202dca2fce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 08/22] fix: report a word ending on a hyphen at its own line

The line break following such a word had already been counted.
---
 lexer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lexer.go b/lexer.go
index 4d75c0d..490f73e 100644
--- a/lexer.go
+++ b/lexer.go
@@ -374,13 +374,13 @@ func (lex *MyLexer) consumeWord() (string, error) {
 			return "", fmt.Errorf("failed to read: %v", err.Error())
 		}
 		if err == io.EOF || isWhitespace(r) || !isIdentifierChar(r) {
+			if err == nil {
+				lex.unreadRune()
+			}
 			label := acc.String()
 			if label[len(label)-1] == '-' {
 				return "", fmt.Errorf("token can not end on hyphen, got %v", label)
 			}
-			if err == nil {
-				lex.unreadRune()
-			}
 			return label, nil
 		}
 		if !isIdentifierChar(r) {
-- 
2.43.0


From 764df906f0df31d7c37ecf26d6b51db39a3f474f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 09/22] fix: generate math.Inf for PLUS-INFINITY and
 MINUS-INFINITY values

---
 codegen.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/codegen.go b/codegen.go
index bf22c06..a9811c3 100644
--- a/codegen.go
+++ b/codegen.go
@@ -7,6 +7,7 @@ import (
 	goprint "go/printer"
 	gotoken "go/token"
 	"io"
+	"math"
 	"strings"
 )
 
@@ -202,7 +203,16 @@ func (ctx *moduleContext) tryGenerateValueAssignment(ref ValueReference, t Type,
 			valExpr = &goast.BasicLit{Value: "false"}
 		}
 	case Real:
-		valExpr = &goast.BasicLit{Value: fmt.Sprint(val)}
+		if math.IsInf(float64(val), 0) {
+			sign := 1
+			if val < 0 {
+				sign = -1
+			}
+			ctx.requireModule("math")
+			valExpr = goast.NewIdent(fmt.Sprintf("math.Inf(%d)", sign))
+		} else {
+			valExpr = &goast.BasicLit{Value: fmt.Sprint(val)}
+		}
 	default:
 		// TODO: produce a warning?
 		return nil
-- 
2.43.0


From 2a80f2767a66fc06d958f705ffff21a0d3ca3d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:40 +0000
Subject: [PATCH 10/22] fix: do not build REAL values with big.NewInt

---
 codegen.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/codegen.go b/codegen.go
index a9811c3..d361b34 100644
--- a/codegen.go
+++ b/codegen.go
@@ -195,7 +195,11 @@ func (ctx *moduleContext) tryGenerateValueAssignment(ref ValueReference, t Type,
 	var valExpr goast.Expr
 	switch val := val.(type) {
 	case Number:
-		valExpr = numberToExpr(val, ctx.params.IntegerRepr)
+		repr := ctx.params.IntegerRepr
+		if ctx.isReal(t) {
+			repr = IntegerReprInt64 // REAL does not depend on INTEGER representation
+		}
+		valExpr = numberToExpr(val, repr)
 	case Boolean:
 		if val {
 			valExpr = &goast.BasicLit{Value: "true"}
@@ -333,6 +337,15 @@ func (ctx *moduleContext) generateAssociatedValuesIfNeeded(reference TypeReferen
 	}
 }
 
+func (ctx *moduleContext) isReal(t Type) bool {
+	t = ctx.removeWrapperTypes(t)
+	if reference, ok := t.(TypeReference); ok {
+		t = ctx.removeWrapperTypes(ctx.unwrapToLeafType(reference).Type)
+	}
+	_, ok := t.(RealType)
+	return ok
+}
+
 func valueRefToIdent(ref ValueReference) *goast.Ident {
 	return goast.NewIdent("Val" + goifyName(string(ref)))
 }
-- 
2.43.0


From 0d2bc477914413097319c5b822597ada495cc1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 11/22] fix: report circular type references instead of
 overflowing the stack

---
 codegen.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/codegen.go b/codegen.go
index d361b34..a51a82d 100644
--- a/codegen.go
+++ b/codegen.go
@@ -570,14 +570,20 @@ func (ctx *moduleContext) removeWrapperTypes(t Type) Type {
 }
 
 // unwrapToLeafType walks over transitive type references, tags and constraints and yields "root" type reference
+// yields assignment with nil Type if reference is not defined in the module, or is defined through itself
 func (ctx *moduleContext) unwrapToLeafType(reference TypeReference) TypeAssignment {
-	if assignment := ctx.lookupContext.AssignmentList.GetType(reference.Name()); assignment != nil {
-		t := assignment.Type
-		if tt, ok := ctx.removeWrapperTypes(t).(TypeReference); ok {
-			return ctx.unwrapToLeafType(tt)
-		} else {
+	visited := make(map[TypeReference]bool)
+	for !visited[reference] {
+		visited[reference] = true
+		assignment := ctx.lookupContext.AssignmentList.GetType(reference.Name())
+		if assignment == nil {
+			break
+		}
+		next, ok := ctx.removeWrapperTypes(assignment.Type).(TypeReference)
+		if !ok {
 			return *assignment
 		}
+		reference = next
 	}
 	return TypeAssignment{reference, nil}
 }
-- 
2.43.0


From 23f72cdc68b22a4428b3aa3ac059c496570a7e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 12/22] fix: see tags of a CHOICE alternative through chains of
 references

Tags between the referenced name and the type finally assigned were
dropped, and an alternative referring to a time type was taken as tagged.
---
 codegen.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/codegen.go b/codegen.go
index a51a82d..07539df 100644
--- a/codegen.go
+++ b/codegen.go
@@ -387,11 +387,14 @@ func (ctx *moduleContext) taggedChoiceTypeAlternative(name Identifier, t Type) b
 		if t.Name() == GeneralizedTimeName || t.Name() == UTCTimeName {
 			return false
 		}
-		realType := ctx.resolveTypeReference(t)
-		if realType == nil {
+		if ctx.resolveTypeReference(t) == nil {
 			return false
 		}
-		return ctx.taggedChoiceTypeAlternative(name, realType.Type)
+		// go one reference at a time, as resolveTypeReference drops the tags met on the way
+		if assignment := ctx.lookupContext.AssignmentList.GetType(t.Name()); assignment != nil {
+			return ctx.taggedChoiceTypeAlternative(name, assignment.Type)
+		}
+		return false
 	case ConstraintedType:
 		return ctx.taggedChoiceTypeAlternative(name, t.Type)
 	default:
-- 
2.43.0


From eaa6839ccd818b9b2d3a0da4beff38d3e277bf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:45 +0000
Subject: [PATCH 13/22] fix: read the fraction of a REAL value digit by digit

Fractions were scaled by the magnitude of their integer value, so 1.1
read as 2, 1.05 as 1.5 and 1.10 as 2.
---
 asn1.y    | 4 ++--
 parser.go | 9 +++++++++
 y.go      | 4 ++--
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/asn1.y b/asn1.y
index c32c9c4..a9770f0 100644
--- a/asn1.y
+++ b/asn1.y
@@ -648,8 +648,8 @@ SpecialRealValue : PLUS_INFINITY  { $$ = Real(math.Inf(1)) }
 
 // TODO this seem to be not strict enough (spaces can sneak in into composite value)
 realnumber : NUMBER  { $$ = parseRealNumber($1, 0, 0) }
-           | NUMBER DOT NUMBER  { $$ = parseRealNumber($1, $3, 0) }
-           | NUMBER DOT NUMBER EXPONENT SignedExponent  { $$ = parseRealNumber($1, $3, $5) }
+           | NUMBER DOT NUMBER  { $$ = parseRealLiteral($<numberRepr>1, $<numberRepr>3, 0) }
+           | NUMBER DOT NUMBER EXPONENT SignedExponent  { $$ = parseRealLiteral($<numberRepr>1, $<numberRepr>3, $5) }
            | NUMBER EXPONENT SignedExponent  { $$ = parseRealNumber($1, 0, $3) }
 ;
 
diff --git a/parser.go b/parser.go
index 47b1bc6..b0814e4 100644
--- a/parser.go
+++ b/parser.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"math"
 	"os"
+	"strconv"
 	"strings"
 )
 
@@ -38,6 +39,14 @@ func ParseFile(name string) (*ModuleDefinition, error) {
 	return ParseStream(file)
 }
 
+// parseRealLiteral builds value of the real number from its digits as they are written,
+// as zeros in the fraction are significant.
+func parseRealLiteral(integer string, fraction string, exponent Number) Real {
+	// error can only be range error, with value being an infinity
+	value, _ := strconv.ParseFloat(integer+"."+fraction+"e"+strconv.Itoa(exponent.IntValue()), 64)
+	return Real(value)
+}
+
 func parseRealNumber(integer Number, fraction Number, exponent Number) Real {
 	value := float64(integer)
 	if fraction != 0 {
diff --git a/y.go b/y.go
index 7a09dd6..b5c8f68 100644
--- a/y.go
+++ b/y.go
@@ -1502,13 +1502,13 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line asn1.y:651
 		{
-			yyVAL.Real = parseRealNumber(yyDollar[1].Number, yyDollar[3].Number, 0)
+			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, yyDollar[3].numberRepr, 0)
 		}
 	case 115:
 		yyDollar = yyS[yypt-5 : yypt+1]
 //line asn1.y:652
 		{
-			yyVAL.Real = parseRealNumber(yyDollar[1].Number, yyDollar[3].Number, yyDollar[5].Number)
+			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, yyDollar[3].numberRepr, yyDollar[5].Number)
 		}
 	case 116:
 		yyDollar = yyS[yypt-3 : yypt+1]
-- 
2.43.0


From 98841b7c5a147554a79bd07b6441cc11d2f09eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 14/22] fix: print errors verbatim instead of using them as a
 format string

---
 cmd/asn1go/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/asn1go/main.go b/cmd/asn1go/main.go
index b86b2da..09af371 100644
--- a/cmd/asn1go/main.go
+++ b/cmd/asn1go/main.go
@@ -77,7 +77,7 @@ func main() {
 
 	module, err := asn1go.ParseStream(input)
 	if err != nil {
-		failWithError(err.Error())
+		failWithError("%v", err)
 	}
 	params := asn1go.GenParams{
 		Package:     flags.packageName,
@@ -86,7 +86,7 @@ func main() {
 	gen := asn1go.NewCodeGenerator(params)
 	err = gen.Generate(*module, output)
 	if err != nil {
-		failWithError(err.Error())
+		failWithError("%v", err)
 	}
 
 	output.Close()
-- 
2.43.0


From c01e32e1e58b1d373b6ac90eba98b68f0885587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:48 +0000
Subject: [PATCH 15/22] fix: name the output file when it can not be written

---
 cmd/asn1go/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/asn1go/main.go b/cmd/asn1go/main.go
index 09af371..af224fd 100644
--- a/cmd/asn1go/main.go
+++ b/cmd/asn1go/main.go
@@ -62,7 +62,7 @@ func openChannels(inputName, outputName string) (input, output *os.File) {
 	if len(outputName) != 0 {
 		output, err = os.OpenFile(outputName, os.O_CREATE|os.O_WRONLY, 0644)
 		if err != nil {
-			failWithError("File %v can not be written: %v", inputName, err.Error())
+			failWithError("File %v can not be written: %v", outputName, err.Error())
 		}
 		if err := output.Truncate(0); err != nil {
 			failWithError("Failed to truncate file: %v", err.Error())
-- 
2.43.0


From adaeb188510f3643d5dca117617785a88421d140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 16/22] fix: accept extensible enumerations

---
 asn1.y |   13 +-
 y.go   | 1061 ++++++++++++++++++++++++++++----------------------------
 2 files changed, 536 insertions(+), 538 deletions(-)

diff --git a/asn1.y b/asn1.y
index a9770f0..fe871e5 100644
--- a/asn1.y
+++ b/asn1.y
@@ -315,7 +315,7 @@ import (
 %type <NamedNumber> NamedNumber
 %type <NamedNumberList> NamedNumberList
 %type <EnumeratedType> Enumerations
-%type <Enumeration> Enumeration RootEnumeration AdditionalEnumeration
+%type <Enumeration> Enumeration AdditionalEnumeration
 %type <EnumerationItem> EnumerationItem
 
 //
@@ -608,18 +608,17 @@ IntegerValue : SignedNumber  { $$ = $1 }
 EnumeratedType : ENUMERATED OPEN_CURLY Enumerations CLOSE_CURLY  { $$ = $3 }
 ;
 
-Enumerations : RootEnumeration  { $$ = EnumeratedType{RootEnumeration: $1} }
-             | RootEnumeration COMMA ELLIPSIS ExceptionSpec  { $$ = EnumeratedType{RootEnumeration: $1} }
-             | RootEnumeration COMMA ELLIPSIS ExceptionSpec COMMA AdditionalEnumeration  { $$ = EnumeratedType{RootEnumeration: $1, AdditionalEnumeration: $6} }
-
-RootEnumeration : Enumeration
+// Edited from the doc - Enumeration used directly instead of RootEnumeration to avoid ambiguity around COMMA.
+Enumerations : Enumeration  { $$ = EnumeratedType{RootEnumeration: $1} }
+             | Enumeration COMMA ELLIPSIS ExceptionSpec  { $$ = EnumeratedType{RootEnumeration: $1} }
+             | Enumeration COMMA ELLIPSIS ExceptionSpec COMMA AdditionalEnumeration  { $$ = EnumeratedType{RootEnumeration: $1, AdditionalEnumeration: $6} }
 ;
 
 AdditionalEnumeration : Enumeration
 ;
 
 Enumeration : EnumerationItem  { $$ = []EnumerationItem{$1} }
-            | EnumerationItem COMMA Enumeration  { $$ = append([]EnumerationItem{$1}, $3...) }
+            | Enumeration COMMA EnumerationItem  { $$ = append($1, $3) }
 ;
 
 EnumerationItem : NamedNumber  { $$ = $1 }
diff --git a/y.go b/y.go
index b5c8f68..4cb6b04 100644
--- a/y.go
+++ b/y.go
@@ -335,7 +335,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line asn1.y:1071
+//line asn1.y:1070
 
 //line yacctab:1
 var yyExca = [...]int16{
@@ -349,200 +349,199 @@ var yyExca = [...]int16{
 	31, 3,
 	-2, 2,
 	-1, 178,
-	44, 239,
-	94, 239,
-	-2, 235,
+	44, 238,
+	94, 238,
+	-2, 234,
 	-1, 180,
-	46, 242,
-	53, 242,
-	-2, 237,
+	46, 241,
+	53, 241,
+	-2, 236,
 	-1, 184,
-	60, 245,
-	-2, 243,
+	60, 244,
+	-2, 242,
 	-1, 193,
-	16, 264,
-	28, 264,
-	-2, 258,
-	-1, 252,
+	16, 263,
+	28, 263,
+	-2, 257,
+	-1, 251,
 	32, 6,
 	-2, 4,
-	-1, 329,
-	46, 242,
-	53, 242,
-	-2, 238,
-	-1, 421,
-	30, 138,
-	-2, 132,
+	-1, 327,
+	46, 241,
+	53, 241,
+	-2, 237,
+	-1, 419,
+	30, 137,
+	-2, 131,
 }
 
 const yyPrivate = 57344
 
-const yyLast = 912
+const yyLast = 910
 
 var yyAct = [...]int16{
-	219, 205, 408, 218, 374, 208, 350, 220, 127, 17,
-	193, 177, 259, 317, 313, 17, 281, 277, 238, 291,
-	333, 242, 250, 210, 202, 262, 163, 184, 182, 180,
-	246, 159, 170, 217, 241, 3, 144, 151, 5, 19,
-	168, 38, 29, 295, 19, 416, 11, 9, 19, 168,
-	265, 19, 133, 19, 168, 19, 19, 46, 165, 54,
-	46, 296, 411, 297, 233, 204, 204, 165, 169, 334,
-	45, 54, 165, 45, 273, 227, 215, 169, 274, 46,
-	150, 232, 169, 190, 46, 225, 19, 224, 62, 24,
-	234, 10, 45, 336, 23, 417, 204, 45, 22, 152,
-	266, 172, 336, 21, 35, 31, 148, 42, 137, 142,
-	172, 415, 162, 134, 263, 172, 195, 129, 161, 58,
-	36, 162, 50, 140, 121, 135, 162, 161, 164, 128,
-	164, 128, 161, 211, 214, 61, 268, 155, 203, 260,
-	221, 171, 123, 269, 223, 47, 48, 221, 226, 231,
-	171, 221, 221, 60, 429, 171, 213, 103, 154, 139,
-	216, 139, 59, 128, 239, 228, 400, 253, 370, 245,
-	124, 65, 63, 309, 229, 318, 399, 122, 388, 385,
-	247, 125, 221, 138, 143, 384, 244, 331, 320, 164,
-	141, 126, 136, 44, 40, 53, 44, 32, 41, 271,
-	128, 278, 258, 319, 4, 48, 325, 53, 128, 345,
-	256, 270, 315, 288, 27, 44, 255, 283, 431, 145,
-	44, 343, 310, 289, 344, 430, 290, 422, 342, 430,
-	420, 406, 299, 301, 326, 403, 308, 292, 395, 394,
-	305, 307, 387, 382, 282, 372, 294, 287, 302, 253,
-	253, 286, 280, 222, 261, 62, 275, 15, 230, 425,
-	4, 48, 393, 235, 236, 164, 164, 365, 363, 164,
-	357, 311, 303, 293, 164, 323, 285, 279, 312, 314,
-	165, 199, 338, 335, 25, 30, 132, 322, 347, 211,
-	351, 328, 214, 353, 329, 360, 330, 131, 164, 130,
-	7, 348, 368, 355, 421, 346, 19, 361, 19, 358,
-	352, 327, 272, 64, 356, 354, 375, 28, 204, 359,
-	249, 12, 284, 4, 48, 240, 19, 18, 14, 424,
-	367, 371, 364, 369, 14, 26, 164, 316, 366, 257,
-	18, 298, 300, 19, 377, 335, 278, 47, 48, 304,
-	306, 4, 48, 254, 48, 373, 4, 252, 254, 4,
-	380, 321, 378, 381, 379, 383, 55, 48, 414, 397,
-	396, 376, 164, 341, 164, 340, 339, 324, 337, 267,
-	264, 390, 389, 423, 392, 410, 398, 405, 409, 402,
-	351, 55, 19, 168, 39, 34, 377, 377, 1, 412,
-	413, 401, 209, 418, 207, 211, 404, 206, 212, 419,
-	407, 165, 386, 349, 362, 201, 200, 187, 72, 120,
-	153, 169, 243, 409, 426, 427, 43, 428, 57, 56,
-	37, 360, 276, 69, 94, 77, 86, 149, 237, 99,
-	179, 93, 110, 100, 102, 84, 82, 139, 81, 80,
-	198, 79, 67, 85, 172, 91, 88, 90, 95, 114,
-	106, 71, 111, 197, 89, 162, 96, 113, 332, 194,
-	192, 161, 119, 104, 97, 191, 92, 107, 55, 19,
-	168, 108, 186, 189, 188, 109, 185, 183, 181, 178,
-	391, 115, 176, 175, 171, 105, 174, 173, 165, 116,
-	87, 68, 112, 117, 187, 33, 120, 118, 169, 49,
-	98, 196, 101, 51, 52, 167, 166, 157, 160, 78,
-	158, 94, 156, 248, 251, 83, 99, 73, 93, 110,
-	100, 75, 66, 70, 139, 74, 76, 198, 6, 16,
-	13, 172, 2, 88, 8, 95, 114, 106, 20, 111,
-	0, 89, 162, 96, 113, 0, 0, 0, 161, 119,
-	104, 97, 0, 92, 107, 47, 48, 325, 108, 0,
-	0, 0, 109, 0, 0, 0, 0, 0, 115, 0,
-	0, 171, 105, 0, 0, 0, 116, 0, 0, 112,
-	117, 0, 0, 120, 118, 326, 0, 98, 196, 101,
-	0, 0, 0, 0, 0, 0, 0, 0, 94, 0,
-	0, 0, 0, 99, 0, 93, 110, 100, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	88, 0, 95, 114, 106, 0, 111, 0, 89, 55,
-	96, 113, 0, 0, 0, 0, 119, 104, 97, 0,
-	92, 107, 0, 0, 0, 108, 0, 0, 0, 109,
-	0, 0, 0, 0, 0, 115, 0, 120, 0, 105,
-	0, 0, 0, 116, 0, 0, 112, 117, 0, 0,
-	0, 118, 94, 0, 98, 0, 101, 99, 0, 93,
-	110, 100, 0, 0, 0, 0, 0, 147, 0, 0,
-	0, 0, 0, 0, 88, 0, 95, 114, 106, 0,
-	111, 0, 89, 0, 96, 113, 55, 19, 0, 0,
-	119, 104, 97, 0, 92, 107, 0, 0, 0, 108,
-	0, 0, 0, 109, 0, 0, 0, 0, 0, 115,
-	0, 146, 0, 105, 120, 0, 0, 116, 0, 0,
-	112, 117, 0, 0, 0, 118, 0, 0, 98, 94,
-	101, 0, 0, 0, 99, 0, 93, 110, 100, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 88, 0, 95, 114, 106, 0, 111, 0, 89,
-	55, 96, 113, 0, 0, 0, 0, 119, 104, 97,
-	0, 92, 107, 0, 0, 0, 108, 0, 0, 0,
-	109, 0, 0, 0, 0, 0, 115, 0, 120, 0,
+	205, 218, 208, 406, 217, 207, 372, 348, 17, 127,
+	315, 219, 193, 177, 17, 258, 237, 311, 289, 280,
+	276, 331, 249, 241, 209, 163, 180, 195, 245, 202,
+	182, 261, 170, 184, 159, 216, 240, 3, 144, 5,
+	151, 38, 293, 29, 19, 133, 414, 19, 19, 19,
+	168, 272, 11, 9, 204, 273, 264, 204, 19, 46,
+	294, 54, 46, 295, 226, 232, 19, 214, 165, 409,
+	332, 231, 45, 54, 24, 45, 204, 190, 169, 19,
+	168, 46, 65, 150, 224, 223, 46, 233, 23, 140,
+	21, 62, 125, 22, 45, 128, 415, 10, 165, 45,
+	35, 135, 152, 334, 262, 31, 265, 128, 169, 137,
+	142, 172, 413, 148, 134, 129, 267, 19, 168, 42,
+	36, 259, 162, 268, 121, 139, 58, 164, 161, 164,
+	145, 61, 210, 213, 60, 50, 165, 139, 428, 155,
+	220, 172, 203, 220, 220, 123, 169, 307, 222, 225,
+	59, 171, 162, 230, 220, 103, 141, 212, 161, 398,
+	154, 397, 220, 386, 221, 215, 252, 238, 136, 229,
+	227, 334, 244, 383, 234, 235, 228, 138, 143, 172,
+	316, 171, 124, 246, 122, 63, 41, 128, 164, 243,
+	162, 44, 368, 53, 44, 382, 161, 4, 48, 323,
+	277, 270, 257, 329, 318, 53, 47, 48, 317, 126,
+	32, 128, 343, 44, 313, 255, 286, 269, 44, 171,
+	282, 254, 341, 429, 27, 342, 128, 324, 430, 308,
+	423, 424, 420, 283, 306, 297, 299, 287, 418, 429,
+	288, 404, 401, 303, 305, 290, 300, 252, 252, 393,
+	392, 296, 298, 385, 380, 40, 281, 370, 292, 302,
+	304, 285, 279, 164, 164, 260, 62, 164, 274, 391,
+	363, 361, 164, 15, 355, 310, 312, 321, 4, 48,
+	309, 301, 336, 291, 333, 320, 210, 322, 351, 213,
+	327, 345, 284, 349, 358, 164, 326, 328, 165, 346,
+	278, 30, 25, 340, 353, 199, 132, 359, 131, 344,
+	130, 7, 352, 354, 366, 19, 19, 19, 419, 356,
+	325, 271, 357, 360, 422, 373, 350, 204, 64, 28,
+	248, 365, 362, 164, 12, 369, 364, 367, 14, 19,
+	18, 375, 314, 277, 14, 333, 256, 18, 26, 4,
+	48, 239, 47, 48, 371, 4, 48, 253, 55, 48,
+	377, 378, 19, 376, 379, 48, 381, 4, 319, 164,
+	412, 164, 4, 251, 253, 395, 394, 387, 374, 339,
+	338, 388, 337, 335, 390, 396, 266, 407, 400, 55,
+	19, 168, 349, 375, 375, 263, 421, 408, 399, 410,
+	411, 403, 210, 402, 39, 34, 1, 417, 416, 165,
+	206, 211, 405, 384, 347, 187, 201, 120, 200, 169,
+	72, 153, 407, 425, 426, 210, 427, 351, 242, 43,
+	57, 358, 94, 56, 37, 275, 69, 99, 179, 93,
+	110, 100, 77, 86, 149, 139, 236, 102, 198, 84,
+	82, 81, 172, 80, 88, 79, 95, 114, 106, 67,
+	111, 85, 89, 162, 96, 113, 91, 90, 71, 161,
+	119, 104, 97, 197, 92, 107, 55, 19, 168, 108,
+	330, 194, 192, 109, 191, 186, 189, 188, 185, 115,
+	183, 181, 171, 105, 178, 389, 165, 116, 176, 175,
+	112, 117, 187, 174, 120, 118, 169, 173, 98, 196,
+	101, 87, 68, 33, 49, 51, 52, 167, 166, 94,
+	157, 160, 78, 158, 99, 156, 93, 110, 100, 247,
+	250, 83, 139, 73, 75, 198, 66, 70, 74, 172,
+	76, 88, 6, 95, 114, 106, 16, 111, 13, 89,
+	162, 96, 113, 2, 8, 20, 161, 119, 104, 97,
+	0, 92, 107, 47, 48, 323, 108, 0, 0, 0,
+	109, 0, 0, 0, 0, 0, 115, 0, 0, 171,
 	105, 0, 0, 0, 116, 0, 0, 112, 117, 0,
-	0, 0, 118, 94, 0, 98, 0, 101, 99, 0,
-	93, 110, 100, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 88, 0, 95, 114, 106,
-	0, 111, 0, 89, 0, 96, 113, 0, 0, 0,
-	0, 119, 104, 97, 0, 92, 107, 0, 0, 0,
-	108, 0, 0, 0, 109, 0, 0, 0, 0, 0,
-	115, 0, 0, 0, 105, 0, 0, 0, 116, 0,
-	0, 112, 117, 0, 0, 0, 118, 0, 0, 98,
-	0, 101,
+	0, 120, 118, 324, 0, 98, 196, 101, 0, 0,
+	0, 0, 0, 0, 0, 0, 94, 0, 0, 0,
+	0, 99, 0, 93, 110, 100, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 88, 0,
+	95, 114, 106, 0, 111, 0, 89, 55, 96, 113,
+	0, 0, 0, 0, 119, 104, 97, 0, 92, 107,
+	0, 0, 0, 108, 0, 0, 0, 109, 0, 0,
+	0, 0, 0, 115, 0, 120, 0, 105, 0, 0,
+	0, 116, 0, 0, 112, 117, 0, 0, 0, 118,
+	94, 0, 98, 0, 101, 99, 0, 93, 110, 100,
+	0, 0, 0, 0, 0, 147, 0, 0, 0, 0,
+	0, 0, 88, 0, 95, 114, 106, 0, 111, 0,
+	89, 0, 96, 113, 55, 19, 0, 0, 119, 104,
+	97, 0, 92, 107, 0, 0, 0, 108, 0, 0,
+	0, 109, 0, 0, 0, 0, 0, 115, 0, 146,
+	0, 105, 120, 0, 0, 116, 0, 0, 112, 117,
+	0, 0, 0, 118, 0, 0, 98, 94, 101, 0,
+	0, 0, 99, 0, 93, 110, 100, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 88,
+	0, 95, 114, 106, 0, 111, 0, 89, 55, 96,
+	113, 0, 0, 0, 0, 119, 104, 97, 0, 92,
+	107, 0, 0, 0, 108, 0, 0, 0, 109, 0,
+	0, 0, 0, 0, 115, 0, 120, 0, 105, 0,
+	0, 0, 116, 0, 0, 112, 117, 0, 0, 0,
+	118, 94, 0, 98, 0, 101, 99, 0, 93, 110,
+	100, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 88, 0, 95, 114, 106, 0, 111,
+	0, 89, 0, 96, 113, 0, 0, 0, 0, 119,
+	104, 97, 0, 92, 107, 0, 0, 0, 108, 0,
+	0, 0, 109, 0, 0, 0, 0, 0, 115, 0,
+	0, 0, 105, 0, 0, 0, 116, 0, 0, 112,
+	117, 0, 0, 0, 118, 0, 0, 98, 0, 101,
 }
 
 var yyPact = [...]int16{
-	353, -1000, -81, 274, -1000, -17, -1000, 319, 31, 20,
-	16, 11, 257, 319, -1000, -1000, -1000, 182, -1000, -1000,
-	302, -70, -1000, -1000, -1000, -1000, -1000, 332, 38, -1000,
-	164, 36, -1000, 68, -75, 139, -1000, 360, 341, 111,
-	93, 225, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 360,
-	-1000, -1000, -1000, 298, 784, -1000, 82, 341, -1000, 58,
-	-1000, -1000, 341, -1000, 784, 176, -1000, -1000, -1000, -1000,
+	361, -1000, -80, 285, -1000, -11, -1000, 332, 18, 15,
+	10, -4, 275, 332, -1000, -1000, -1000, 192, -1000, -1000,
+	314, -69, -1000, -1000, -1000, -1000, -1000, 339, 38, -1000,
+	177, 32, -1000, 68, -75, 200, -1000, 352, 346, 92,
+	89, 236, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 352,
+	-1000, -1000, -1000, 313, 782, -1000, 82, 346, -1000, 61,
+	-1000, -1000, 346, -1000, 782, 194, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 51, -1000,
-	-1000, -1000, 273, 271, 260, -1000, -52, 47, -1000, 99,
-	97, -92, 633, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 40,
-	-22, -1000, -1000, 353, -1000, 168, 46, -1000, 385, 255,
-	301, 336, 336, -1000, -1000, 49, 710, -6, -8, 168,
-	48, 710, -12, -29, 7, 168, 784, 784, -1000, 317,
-	-1000, -1000, -1000, -1000, 254, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, 350, -1000, -1000, 185, 331,
-	-1000, -1000, -1000, 94, -1000, -1000, 224, -1000, -1000, 54,
-	-1000, 6, -1000, 90, -1000, 54, -1000, 385, -1000, -1000,
-	-1000, -1000, -1000, -1000, 296, 168, -25, 228, -1000, 336,
-	250, 222, 214, -1000, 94, 784, 249, 221, -1000, 217,
-	-1000, 181, 196, -1000, 181, -1000, 207, 246, 216, -1000,
-	-54, -30, 168, -1000, 710, 710, -1000, -1000, 207, 245,
-	168, -1000, 710, 710, 336, 168, 168, 138, -1000, -1000,
-	-1000, 191, -1000, -1000, -1000, -1000, 244, 350, 350, -1000,
-	-1000, -1000, -1000, 180, -1000, 329, 167, 185, -1000, 155,
-	559, 294, -1000, 472, 472, -1000, -1000, 472, -1000, -1000,
-	-1000, 154, 41, 168, 202, -1000, 194, -1000, 177, -1000,
-	301, 207, 336, -1000, 168, -1000, 293, 336, 198, -1000,
-	336, 243, 292, -1000, 79, -1000, 46, 784, 168, -1000,
-	168, -1000, 241, -1000, 168, -1000, 168, -1000, -1000, -1000,
-	347, -1000, 240, -1000, -1000, 345, 277, -1000, -1000, 325,
-	-1000, -1000, -1000, -1000, 131, -1000, 323, 215, -1000, -1000,
-	-1000, -1000, -1000, -1000, 32, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, 299, -1000, 336, 317, 214, -1000, -1000, 213,
-	-1000, -1000, 94, -1000, 152, 146, -1000, -1000, -1000, 212,
-	-1000, -1000, 168, -1000, -1000, -1000, 145, -1000, 167, -1000,
-	46, -1000, 385, -1000, 235, 209, 208, 168, -1000, 143,
-	133, 207, 336, 205, -1000, -1000, 201, 44, -1000, -1000,
-	-1000, -1000, -1000, -1000, 336, 336, -1000, -2, -1000, -1000,
-	-1000, -1000, -1000, 336, -1000, 200, 287, 197, -1000, -1000,
-	-1000, 321, 232, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	37, -1000, 44, 37, 117, -1000, 195, -1000, 199, -1000,
-	37, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 49, -1000,
+	-1000, -1000, 284, 282, 280, -1000, -59, 48, -1000, 75,
+	63, -90, 631, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 47,
+	-19, -1000, -1000, 361, -1000, 179, 72, -1000, 383, 279,
+	310, 355, 355, -1000, -1000, 40, 708, -8, -9, 179,
+	37, 708, -22, -28, 4, 179, 782, 782, -1000, 343,
+	-1000, -1000, -1000, -1000, 272, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, 366, -1000, -1000, 190, 338,
+	-1000, -1000, -1000, 76, -1000, -1000, 235, -1000, -1000, 44,
+	-1000, 12, -1000, 70, -1000, 44, -1000, 383, -1000, -1000,
+	-1000, -1000, -1000, -1000, 305, 179, -48, 240, -1000, 355,
+	273, 232, 226, -1000, 76, 782, 265, 231, -1000, -1000,
+	184, 210, -1000, 184, -1000, 215, 256, 228, -1000, -55,
+	-30, 179, -1000, 708, 708, -1000, -1000, 215, 254, 179,
+	-1000, 708, 708, 355, 179, 179, 112, -1000, -1000, -1000,
+	198, -1000, -1000, -1000, -1000, 253, 366, 366, -1000, -1000,
+	-1000, -1000, 182, -1000, 334, 172, 190, -1000, 171, 557,
+	303, -1000, 470, 470, -1000, -1000, 470, -1000, -1000, -1000,
+	170, 42, 179, 277, -1000, 195, -1000, 180, -1000, 310,
+	215, 355, -1000, 179, -1000, 309, 191, -1000, 355, 247,
+	302, -1000, 59, -1000, 72, 782, 179, -1000, 179, -1000,
+	244, -1000, 179, -1000, 179, -1000, -1000, -1000, 358, -1000,
+	243, -1000, -1000, 349, 289, -1000, -1000, 329, -1000, -1000,
+	-1000, -1000, 155, -1000, 327, 227, -1000, -1000, -1000, -1000,
+	-1000, -1000, 110, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	308, -1000, 355, 343, 226, -1000, -1000, 224, -1000, -1000,
+	76, -1000, 162, 140, -1000, -1000, -1000, 223, -1000, -1000,
+	179, -1000, -1000, -1000, 130, -1000, 172, -1000, 72, -1000,
+	383, -1000, 242, 220, 219, 179, -1000, 128, 126, 215,
+	355, 212, -1000, -1000, 211, 51, -1000, -1000, -1000, -1000,
+	-1000, -1000, 355, 355, -1000, -1, -1000, -1000, -1000, -1000,
+	-1000, 355, -1000, 208, 301, 202, -1000, -1000, -1000, 316,
+	203, -1000, -1000, -1000, -1000, -1000, -1000, 201, 41, -1000,
+	51, 41, 101, -1000, 355, 193, -1000, 209, -1000, 41,
+	-1000,
 }
 
 var yyPgo = [...]int16{
-	0, 32, 13, 34, 157, 1, 548, 544, 542, 540,
-	257, 321, 539, 538, 320, 14, 536, 535, 533, 532,
-	116, 531, 527, 525, 7, 22, 524, 523, 30, 31,
-	522, 10, 520, 519, 518, 517, 516, 515, 26, 18,
-	122, 514, 513, 509, 505, 21, 501, 500, 8, 497,
-	496, 493, 492, 490, 11, 489, 488, 29, 487, 28,
-	25, 27, 486, 484, 483, 482, 475, 470, 83, 469,
-	468, 463, 20, 461, 457, 455, 453, 452, 451, 449,
-	448, 446, 0, 3, 446, 33, 445, 444, 438, 437,
-	436, 435, 433, 432, 17, 430, 429, 428, 119, 162,
-	107, 426, 422, 420, 418, 416, 415, 415, 6, 16,
-	413, 412, 410, 2, 23, 408, 407, 5, 404, 403,
-	402, 398, 395, 394, 12, 24, 19, 387, 385, 383,
-	383, 380, 379, 378, 376, 375, 373, 4, 371, 370,
-	369, 368, 361,
+	0, 32, 10, 36, 155, 0, 555, 554, 553, 548,
+	273, 334, 546, 542, 330, 17, 540, 538, 537, 536,
+	27, 534, 533, 531, 11, 22, 530, 529, 28, 34,
+	525, 12, 523, 522, 521, 520, 518, 517, 25, 16,
+	135, 516, 515, 514, 513, 23, 512, 511, 9, 507,
+	503, 499, 498, 495, 13, 494, 491, 26, 490, 30,
+	31, 33, 488, 487, 486, 485, 484, 482, 77, 481,
+	480, 473, 21, 468, 467, 466, 461, 459, 455, 453,
+	451, 450, 1, 4, 450, 35, 449, 447, 446, 444,
+	443, 442, 436, 435, 20, 434, 433, 430, 126, 150,
+	119, 429, 428, 421, 420, 418, 416, 416, 7, 19,
+	414, 413, 412, 3, 24, 411, 410, 5, 408, 2,
+	406, 405, 404, 15, 29, 18, 401, 397, 396, 396,
+	395, 386, 383, 382, 380, 379, 6, 378, 376, 375,
+	370, 368,
 }
 
 var yyR1 = [...]uint8{
-	0, 121, 4, 3, 45, 39, 5, 8, 13, 13,
+	0, 120, 4, 3, 45, 39, 5, 8, 13, 13,
 	11, 11, 9, 9, 9, 10, 12, 7, 7, 7,
-	7, 6, 6, 44, 44, 122, 122, 122, 123, 123,
+	7, 6, 6, 44, 44, 121, 121, 121, 122, 122,
 	95, 95, 96, 96, 97, 97, 98, 103, 102, 102,
 	102, 99, 99, 100, 101, 101, 101, 43, 43, 40,
 	40, 76, 15, 15, 42, 41, 20, 20, 20, 19,
@@ -550,26 +549,26 @@ var yyR1 = [...]uint8{
 	19, 19, 19, 19, 19, 77, 77, 24, 31, 30,
 	30, 30, 30, 18, 35, 35, 17, 17, 115, 115,
 	114, 114, 38, 38, 32, 32, 22, 116, 116, 116,
-	118, 119, 117, 117, 120, 120, 33, 34, 34, 36,
-	36, 37, 37, 1, 1, 1, 1, 2, 2, 92,
-	92, 93, 93, 94, 94, 91, 21, 78, 78, 78,
-	125, 125, 126, 126, 85, 85, 85, 84, 127, 111,
-	111, 112, 112, 113, 113, 128, 129, 129, 83, 83,
-	82, 82, 82, 82, 80, 80, 80, 81, 81, 23,
-	23, 104, 105, 105, 105, 107, 109, 109, 110, 110,
-	108, 130, 106, 106, 86, 86, 86, 87, 88, 88,
-	89, 89, 89, 89, 79, 79, 16, 29, 29, 28,
-	28, 27, 27, 27, 27, 25, 25, 26, 14, 73,
-	73, 74, 74, 74, 74, 74, 74, 74, 74, 74,
-	74, 74, 74, 74, 75, 90, 90, 46, 46, 47,
-	47, 47, 47, 47, 47, 47, 47, 48, 49, 50,
-	51, 51, 51, 52, 53, 54, 54, 55, 55, 56,
-	57, 57, 58, 59, 59, 62, 60, 131, 131, 132,
-	132, 61, 61, 65, 65, 65, 65, 65, 63, 64,
-	69, 69, 70, 70, 71, 71, 72, 72, 68, 66,
-	67, 67, 133, 134, 134, 135, 136, 137, 137, 138,
-	139, 140, 140, 141, 141, 141, 141, 124, 124, 142,
-	142, 142,
+	118, 117, 117, 119, 119, 33, 34, 34, 36, 36,
+	37, 37, 1, 1, 1, 1, 2, 2, 92, 92,
+	93, 93, 94, 94, 91, 21, 78, 78, 78, 124,
+	124, 125, 125, 85, 85, 85, 84, 126, 111, 111,
+	112, 112, 113, 113, 127, 128, 128, 83, 83, 82,
+	82, 82, 82, 80, 80, 80, 81, 81, 23, 23,
+	104, 105, 105, 105, 107, 109, 109, 110, 110, 108,
+	129, 106, 106, 86, 86, 86, 87, 88, 88, 89,
+	89, 89, 89, 79, 79, 16, 29, 29, 28, 28,
+	27, 27, 27, 27, 25, 25, 26, 14, 73, 73,
+	74, 74, 74, 74, 74, 74, 74, 74, 74, 74,
+	74, 74, 74, 75, 90, 90, 46, 46, 47, 47,
+	47, 47, 47, 47, 47, 47, 48, 49, 50, 51,
+	51, 51, 52, 53, 54, 54, 55, 55, 56, 57,
+	57, 58, 59, 59, 62, 60, 130, 130, 131, 131,
+	61, 61, 65, 65, 65, 65, 65, 63, 64, 69,
+	69, 70, 70, 71, 71, 72, 72, 68, 66, 67,
+	67, 132, 133, 133, 134, 135, 136, 136, 137, 138,
+	139, 139, 140, 140, 140, 140, 123, 123, 141, 141,
+	141,
 }
 
 var yyR2 = [...]int8{
@@ -583,33 +582,33 @@ var yyR2 = [...]int8{
 	1, 1, 1, 1, 1, 1, 1, 2, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 4, 1, 3,
 	4, 4, 1, 2, 1, 1, 4, 1, 4, 6,
-	1, 1, 1, 3, 1, 1, 1, 1, 1, 1,
-	2, 1, 1, 1, 3, 5, 3, 1, 2, 2,
-	5, 1, 3, 4, 4, 2, 1, 3, 5, 4,
-	1, 2, 2, 0, 1, 5, 7, 1, 2, 2,
-	0, 1, 3, 1, 1, 4, 0, 2, 1, 3,
-	1, 2, 3, 3, 3, 5, 4, 3, 3, 1,
-	4, 4, 5, 1, 3, 1, 2, 0, 1, 3,
-	1, 4, 1, 3, 2, 3, 3, 4, 1, 1,
-	1, 1, 1, 0, 3, 3, 2, 3, 4, 1,
-	2, 1, 1, 1, 1, 1, 1, 4, 1, 1,
+	1, 1, 3, 1, 1, 1, 1, 1, 1, 2,
+	1, 1, 1, 3, 5, 3, 1, 2, 2, 5,
+	1, 3, 4, 4, 2, 1, 3, 5, 4, 1,
+	2, 2, 0, 1, 5, 7, 1, 2, 2, 0,
+	1, 3, 1, 1, 4, 0, 2, 1, 3, 1,
+	2, 3, 3, 3, 5, 4, 3, 3, 1, 4,
+	4, 5, 1, 3, 1, 2, 0, 1, 3, 1,
+	4, 1, 3, 2, 3, 3, 4, 1, 1, 1,
+	1, 1, 0, 3, 3, 2, 3, 4, 1, 2,
+	1, 1, 1, 1, 1, 1, 4, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	1, 1, 1, 1, 2, 1, 1, 2, 1, 4,
-	4, 4, 4, 4, 4, 4, 4, 4, 1, 1,
-	1, 3, 5, 1, 1, 1, 2, 1, 3, 1,
-	1, 3, 1, 1, 2, 1, 2, 1, 1, 1,
-	1, 1, 3, 1, 1, 1, 1, 1, 1, 3,
-	1, 2, 1, 2, 1, 1, 1, 1, 2, 1,
-	3, 3, 1, 1, 1, 3, 5, 1, 3, 2,
-	2, 1, 0, 1, 1, 1, 0, 2, 0, 1,
-	1, 3,
+	1, 1, 1, 2, 1, 1, 2, 1, 4, 4,
+	4, 4, 4, 4, 4, 4, 4, 1, 1, 1,
+	3, 5, 1, 1, 1, 2, 1, 3, 1, 1,
+	3, 1, 1, 2, 1, 2, 1, 1, 1, 1,
+	1, 3, 1, 1, 1, 1, 1, 1, 3, 1,
+	2, 1, 2, 1, 1, 1, 1, 2, 1, 3,
+	3, 1, 1, 1, 3, 5, 1, 3, 2, 2,
+	1, 0, 1, 1, 1, 0, 2, 0, 1, 1,
+	3,
 }
 
 var yyChk = [...]int16{
-	-1000, -121, -8, -3, 6, 119, -13, 26, -7, 64,
+	-1000, -120, -8, -3, 6, 119, -13, 26, -7, 64,
 	108, 63, -11, -9, -14, -10, -12, -5, 8, 7,
 	-6, 72, 78, 78, 78, 27, -11, 32, 15, 112,
-	-10, 67, 33, -44, -122, 68, 52, -95, 116, -123,
+	-10, 67, 33, -44, -121, 68, 52, -95, 116, -122,
 	55, -99, -100, -101, -4, -3, -45, 6, 7, -43,
 	-40, -42, -41, -4, -45, 6, -96, -97, -98, -99,
 	42, 42, 30, -40, 15, -20, -19, -77, -46, -92,
@@ -626,77 +625,77 @@ var yyChk = [...]int16{
 	-1, 109, 69, -49, -50, -51, -52, -54, -55, 55,
 	-57, -56, -59, -58, -61, -62, -65, 32, -63, -64,
 	-68, -66, -67, -31, -69, -20, 126, -71, 65, 26,
-	-105, -106, -125, -24, 17, -5, -116, -118, -117, -120,
-	-114, -5, -115, -114, -5, 27, -125, -85, -83, -82,
-	-24, 103, -20, -24, 93, 93, -48, 27, -125, -85,
-	-20, -24, 93, 93, 83, -20, -20, -88, -39, -15,
-	8, -3, -45, -102, -29, -15, -28, -15, -27, -14,
-	-25, -26, 7, -5, 8, 31, 25, 8, -1, -124,
-	45, 30, -60, 60, -131, 44, 94, -132, 46, 53,
-	-60, -54, 16, 99, 103, 28, -93, -94, -5, 27,
-	30, -109, 30, -124, -20, 27, 30, 30, 32, 27,
-	30, -126, 30, 27, 30, 97, 115, 93, -20, -24,
-	-20, -24, -126, 27, -20, -24, -20, -24, -5, 35,
-	31, 27, -28, -15, -28, 32, 8, -2, 8, 36,
-	33, -142, -38, -15, -20, 8, 36, 17, -61, -57,
-	-59, 33, -70, -72, 28, -31, 61, -133, -48, -134,
-	-135, -136, 26, 27, 30, 32, -125, -24, -126, -110,
-	-108, -24, 17, -117, -38, -15, -114, 27, 17, -125,
-	-82, -31, -20, 27, -45, 27, -25, -15, 25, 8,
-	37, 8, 30, -72, -137, 17, -138, -5, -94, -39,
-	-15, -109, 30, -124, 33, 33, -111, 30, 33, -2,
-	-31, -53, -54, 27, 30, 30, -139, -140, -48, 33,
-	33, -126, -108, 30, -126, -127, 30, -112, -113, -82,
-	-128, 18, -137, -137, -141, 113, 47, 97, -119, -117,
-	30, 17, 30, -129, 8, 27, -83, -113, -83, 37,
-	30, 19,
+	-105, -106, -124, -24, 17, -5, -116, -117, -119, -114,
+	-5, -115, -114, -5, 27, -124, -85, -83, -82, -24,
+	103, -20, -24, 93, 93, -48, 27, -124, -85, -20,
+	-24, 93, 93, 83, -20, -20, -88, -39, -15, 8,
+	-3, -45, -102, -29, -15, -28, -15, -27, -14, -25,
+	-26, 7, -5, 8, 31, 25, 8, -1, -123, 45,
+	30, -60, 60, -130, 44, 94, -131, 46, 53, -60,
+	-54, 16, 99, 103, 28, -93, -94, -5, 27, 30,
+	-109, 30, -123, -20, 27, 30, 32, 27, 30, -125,
+	30, 27, 30, 97, 115, 93, -20, -24, -20, -24,
+	-125, 27, -20, -24, -20, -24, -5, 35, 31, 27,
+	-28, -15, -28, 32, 8, -2, 8, 36, 33, -141,
+	-38, -15, -20, 8, 36, 17, -61, -57, -59, 33,
+	-70, -72, 28, -31, 61, -132, -48, -133, -134, -135,
+	26, 27, 30, 32, -124, -24, -125, -110, -108, -24,
+	17, -119, -38, -15, -114, 27, 17, -124, -82, -31,
+	-20, 27, -45, 27, -25, -15, 25, 8, 37, 8,
+	30, -72, -136, 17, -137, -5, -94, -39, -15, -109,
+	30, -123, 33, 33, -111, 30, 33, -2, -31, -53,
+	-54, 27, 30, 30, -138, -139, -48, 33, 33, -125,
+	-108, 30, -125, -126, 30, -112, -113, -82, -127, 18,
+	-136, -136, -140, 113, 47, 97, -118, -117, 30, 17,
+	30, -128, 8, 27, 30, -83, -113, -83, 37, 30,
+	19,
 }
 
 var yyDef = [...]int16{
 	0, -2, 0, 9, 3, 20, 7, 0, 22, 0,
-	0, 0, 0, 10, 12, 13, 14, 198, 15, 6,
+	0, 0, 0, 10, 12, 13, 14, 197, 15, 6,
 	0, 0, 17, 18, 19, 8, 11, 0, 0, 21,
 	0, -2, 16, 0, 31, 29, 1, 0, 33, 0,
 	0, 28, 41, 43, 44, 45, 46, -2, 4, 23,
 	47, 49, 50, 0, 0, 2, 0, 32, 34, 0,
 	25, 26, 0, 48, 0, 0, 56, 57, 58, 59,
 	60, 61, 62, 63, 64, 65, 66, 67, 68, 69,
-	70, 71, 72, 73, 74, 75, 76, 218, 0, 83,
-	199, 200, 0, 0, 86, 126, 0, 0, 106, 0,
-	0, 159, 0, 51, 215, 216, 201, 202, 203, 204,
-	205, 206, 207, 208, 209, 210, 211, 212, 213, 0,
-	183, 30, 35, 0, 42, 54, 0, 217, 0, 119,
-	0, 0, 0, 186, 125, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 174, 0, 0, 214, 0,
-	180, 181, 182, 36, 40, 55, 78, 79, 80, 81,
-	82, 84, 85, 94, 95, 0, 107, 108, 92, 0,
-	109, 111, 112, 288, 228, 229, 230, 233, -2, 0,
-	-2, 0, 240, 0, -2, 0, 251, 0, 253, 254,
-	255, 256, 257, -2, 0, 269, 0, 260, 265, 0,
-	0, 163, 167, 172, 130, 0, 0, 97, 100, 102,
-	104, 105, 0, 88, 0, 127, 133, 0, 134, 148,
-	150, 0, 184, 185, 0, 0, 268, 154, 133, 0,
-	157, 158, 0, 0, 0, 175, 176, 0, 178, 179,
-	5, 0, 53, 37, 38, 39, 0, 194, 189, 191,
-	192, 193, -2, 198, 195, 0, 0, 93, 110, 0,
-	0, 0, 236, 0, 0, 247, 248, 0, 249, 250,
-	244, 0, 0, 0, 0, 261, 0, 121, 0, 161,
-	0, 133, 0, 131, 77, 96, 0, 0, 0, 87,
-	0, 0, 0, 129, 0, 151, 0, 0, 221, 225,
-	222, 226, 0, 156, 219, 223, 220, 224, 160, 177,
-	0, 187, 0, 194, 190, 0, 114, 116, 117, 0,
-	227, 287, 289, 290, 0, 92, 0, 231, 246, -2,
-	241, 252, 259, 262, 0, 266, 267, 270, 272, 271,
-	273, 274, 0, 120, 0, 0, 167, 173, 164, 166,
-	168, 170, 288, 103, 0, 0, 89, 128, 132, 140,
-	149, 152, 153, 155, 52, 188, 0, 196, 0, 118,
-	0, 93, 0, 263, 0, 0, 277, 282, 122, 0,
-	0, 133, 0, 98, 90, 91, 133, 0, 197, 115,
-	291, 232, 234, 275, 0, 0, 279, 286, 281, 123,
-	124, 162, 169, 0, 135, 0, 0, 139, 141, 143,
-	144, 146, 0, 278, 280, 283, 284, 285, 99, 101,
-	0, -2, 0, 0, 0, 276, 136, 142, 0, 147,
-	0, 145,
+	70, 71, 72, 73, 74, 75, 76, 217, 0, 83,
+	198, 199, 0, 0, 86, 125, 0, 0, 105, 0,
+	0, 158, 0, 51, 214, 215, 200, 201, 202, 203,
+	204, 205, 206, 207, 208, 209, 210, 211, 212, 0,
+	182, 30, 35, 0, 42, 54, 0, 216, 0, 118,
+	0, 0, 0, 185, 124, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 173, 0, 0, 213, 0,
+	179, 180, 181, 36, 40, 55, 78, 79, 80, 81,
+	82, 84, 85, 94, 95, 0, 106, 107, 92, 0,
+	108, 110, 111, 287, 227, 228, 229, 232, -2, 0,
+	-2, 0, 239, 0, -2, 0, 250, 0, 252, 253,
+	254, 255, 256, -2, 0, 268, 0, 259, 264, 0,
+	0, 162, 166, 171, 129, 0, 0, 97, 101, 103,
+	104, 0, 88, 0, 126, 132, 0, 133, 147, 149,
+	0, 183, 184, 0, 0, 267, 153, 132, 0, 156,
+	157, 0, 0, 0, 174, 175, 0, 177, 178, 5,
+	0, 53, 37, 38, 39, 0, 193, 188, 190, 191,
+	192, -2, 197, 194, 0, 0, 93, 109, 0, 0,
+	0, 235, 0, 0, 246, 247, 0, 248, 249, 243,
+	0, 0, 0, 0, 260, 0, 120, 0, 160, 0,
+	132, 0, 130, 77, 96, 0, 0, 87, 0, 0,
+	0, 128, 0, 150, 0, 0, 220, 224, 221, 225,
+	0, 155, 218, 222, 219, 223, 159, 176, 0, 186,
+	0, 193, 189, 0, 113, 115, 116, 0, 226, 286,
+	288, 289, 0, 92, 0, 230, 245, -2, 240, 251,
+	258, 261, 0, 265, 266, 269, 271, 270, 272, 273,
+	0, 119, 0, 0, 166, 172, 163, 165, 167, 169,
+	287, 102, 0, 0, 89, 127, 131, 139, 148, 151,
+	152, 154, 52, 187, 0, 195, 0, 117, 0, 93,
+	0, 262, 0, 0, 276, 281, 121, 0, 0, 132,
+	0, 98, 90, 91, 132, 0, 196, 114, 290, 231,
+	233, 274, 0, 0, 278, 285, 280, 122, 123, 161,
+	168, 0, 134, 0, 0, 138, 140, 142, 143, 145,
+	0, 277, 279, 282, 283, 284, 99, 100, 0, -2,
+	0, 0, 0, 275, 0, 135, 141, 0, 146, 0,
+	144,
 }
 
 var yyTok1 = [...]int8{
@@ -1422,821 +1421,821 @@ yydefault:
 		}
 	case 97:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:611
+//line asn1.y:612
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration}
 		}
 	case 98:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:612
+//line asn1.y:613
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration}
 		}
 	case 99:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line asn1.y:613
+//line asn1.y:614
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration, AdditionalEnumeration: yyDollar[6].Enumeration}
 		}
-	case 102:
+	case 101:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:621
+//line asn1.y:620
 		{
 			yyVAL.Enumeration = []EnumerationItem{yyDollar[1].EnumerationItem}
 		}
-	case 103:
+	case 102:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:622
+//line asn1.y:621
 		{
-			yyVAL.Enumeration = append([]EnumerationItem{yyDollar[1].EnumerationItem}, yyDollar[3].Enumeration...)
+			yyVAL.Enumeration = append(yyDollar[1].Enumeration, yyDollar[3].EnumerationItem)
 		}
-	case 104:
+	case 103:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:625
+//line asn1.y:624
 		{
 			yyVAL.EnumerationItem = yyDollar[1].NamedNumber
 		}
-	case 105:
+	case 104:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:626
+//line asn1.y:625
 		{
 			yyVAL.EnumerationItem = Identifier(yyDollar[1].name)
 		}
-	case 106:
+	case 105:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:631
+//line asn1.y:630
 		{
 			yyVAL.Type = RealType{}
 		}
-	case 109:
+	case 108:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:640
+//line asn1.y:639
 		{
 			yyVAL.Value = yyDollar[1].Real
 		}
-	case 110:
+	case 109:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:641
+//line asn1.y:640
 		{
 			yyVAL.Value = yyDollar[2].Real.UnaryMinus()
 		}
-	case 111:
+	case 110:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:645
+//line asn1.y:644
 		{
 			yyVAL.Value = Real(math.Inf(1))
 		}
-	case 112:
+	case 111:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:646
+//line asn1.y:645
 		{
 			yyVAL.Value = Real(math.Inf(-1))
 		}
-	case 113:
+	case 112:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:650
+//line asn1.y:649
 		{
 			yyVAL.Real = parseRealNumber(yyDollar[1].Number, 0, 0)
 		}
-	case 114:
+	case 113:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:651
+//line asn1.y:650
 		{
 			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, yyDollar[3].numberRepr, 0)
 		}
-	case 115:
+	case 114:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:652
+//line asn1.y:651
 		{
 			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, yyDollar[3].numberRepr, yyDollar[5].Number)
 		}
-	case 116:
+	case 115:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:653
+//line asn1.y:652
 		{
 			yyVAL.Real = parseRealNumber(yyDollar[1].Number, 0, yyDollar[3].Number)
 		}
-	case 118:
+	case 117:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:657
+//line asn1.y:656
 		{
 			yyVAL.Number = Number(-int(yyDollar[2].Number))
 		}
-	case 119:
+	case 118:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:662
+//line asn1.y:661
 		{
 			yyVAL.Type = BitStringType{}
 		}
-	case 120:
+	case 119:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:663
+//line asn1.y:662
 		{
 			yyVAL.Type = BitStringType{NamedBits: yyDollar[4].NamedBitList}
 		}
-	case 121:
+	case 120:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:666
+//line asn1.y:665
 		{
 			yyVAL.NamedBitList = append(make([]NamedBit, 0), yyDollar[1].NamedBit)
 		}
-	case 122:
+	case 121:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:667
+//line asn1.y:666
 		{
 			yyVAL.NamedBitList = append(yyDollar[1].NamedBitList, yyDollar[3].NamedBit)
 		}
-	case 123:
+	case 122:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:670
+//line asn1.y:669
 		{
 			yyVAL.NamedBit = NamedBit{Name: Identifier(yyDollar[1].name), Index: yyDollar[3].Number}
 		}
-	case 124:
+	case 123:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:671
+//line asn1.y:670
 		{
 			yyVAL.NamedBit = NamedBit{Name: Identifier(yyDollar[1].name), Index: yyDollar[3].DefinedValue}
 		}
-	case 125:
+	case 124:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:676
+//line asn1.y:675
 		{
 			yyVAL.Type = OctetStringType{}
 		}
-	case 126:
+	case 125:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:681
+//line asn1.y:680
 		{
 			yyVAL.Type = NullType{}
 		}
-	case 127:
+	case 126:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:686
+//line asn1.y:685
 		{
 			yyVAL.Type = SequenceType{}
 		}
-	case 128:
+	case 127:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:687
+//line asn1.y:686
 		{
 			yyVAL.Type = SequenceType{}
 		}
-	case 129:
+	case 128:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:688
+//line asn1.y:687
 		{
 			yyVAL.Type = SequenceType{Components: append(yyDollar[3].ComponentTypeLists.Components, yyDollar[3].ComponentTypeLists.TrailingComponents...), ExtensionAdditions: yyDollar[3].ComponentTypeLists.ExtensionAdditions}
 		}
-	case 134:
+	case 133:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:700
+//line asn1.y:699
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList}
 		}
-	case 135:
+	case 134:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:701
+//line asn1.y:700
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList, ExtensionAdditions: yyDollar[4].ExtensionAdditions}
 		}
-	case 136:
+	case 135:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line asn1.y:702
+//line asn1.y:701
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList, ExtensionAdditions: yyDollar[4].ExtensionAdditions, TrailingComponents: yyDollar[7].ComponentTypeList}
 		}
-	case 139:
+	case 138:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:714
+//line asn1.y:713
 		{
 			yyVAL.ExtensionAdditions = yyDollar[2].ExtensionAdditions
 		}
-	case 140:
+	case 139:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:715
+//line asn1.y:714
 		{
 			yyVAL.ExtensionAdditions = nil
 		}
-	case 141:
+	case 140:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:718
+//line asn1.y:717
 		{
 			yyVAL.ExtensionAdditions = append([]ExtensionAddition{}, yyDollar[1].ExtensionAdditions...)
 		}
-	case 142:
+	case 141:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:719
+//line asn1.y:718
 		{
 			yyVAL.ExtensionAdditions = append(yyDollar[1].ExtensionAdditions, yyDollar[3].ExtensionAdditions...)
 		}
-	case 143:
+	case 142:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:722
+//line asn1.y:721
 		{
 			yyVAL.ExtensionAdditions = []ExtensionAddition{yyDollar[1].ComponentType}
 		}
-	case 144:
+	case 143:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:723
+//line asn1.y:722
 		{
 			yyVAL.ExtensionAdditions = nil
 		}
-	case 148:
+	case 147:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:732
+//line asn1.y:731
 		{
 			yyVAL.ComponentTypeList = append(make(ComponentTypeList, 0), yyDollar[1].ComponentType)
 		}
-	case 149:
+	case 148:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:733
+//line asn1.y:732
 		{
 			yyVAL.ComponentTypeList = append(yyDollar[1].ComponentTypeList, yyDollar[3].ComponentType)
 		}
-	case 150:
+	case 149:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:736
+//line asn1.y:735
 		{
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType}
 		}
-	case 151:
+	case 150:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:737
+//line asn1.y:736
 		{
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, IsOptional: true}
 		}
-	case 152:
+	case 151:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:738
+//line asn1.y:737
 		{
 			cpy := yyDollar[3].Value
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, Default: &cpy}
 		}
-	case 153:
+	case 152:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:739
+//line asn1.y:738
 		{
 			yyVAL.ComponentType = ComponentsOfComponentType{Type: yyDollar[3].Type}
 		}
-	case 154:
+	case 153:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:744
+//line asn1.y:743
 		{
 			yyVAL.Type = SetType{}
 		}
-	case 155:
+	case 154:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:745
+//line asn1.y:744
 		{
 			yyVAL.Type = SetType{}
 		}
-	case 156:
+	case 155:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:746
+//line asn1.y:745
 		{
 			yyVAL.Type = SetType{Components: append(yyDollar[3].ComponentTypeLists.Components, yyDollar[3].ComponentTypeLists.TrailingComponents...), ExtensionAdditions: yyDollar[3].ComponentTypeLists.ExtensionAdditions}
 		}
-	case 157:
+	case 156:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:751
+//line asn1.y:750
 		{
 			yyVAL.Type = SetOfType{yyDollar[3].Type}
 		}
-	case 158:
+	case 157:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:752
+//line asn1.y:751
 		{
 			yyVAL.Type = SetOfType{yyDollar[3].NamedType}
 		}
-	case 159:
+	case 158:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:756
+//line asn1.y:755
 		{
 			yyVAL.Type = AnyType{}
 		}
-	case 160:
+	case 159:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:757
+//line asn1.y:756
 		{
 			yyVAL.Type = AnyType{Identifier(yyDollar[4].name)}
 		}
-	case 161:
+	case 160:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:762
+//line asn1.y:761
 		{
 			yyVAL.Type = yyDollar[3].ChoiceType
 		}
-	case 162:
+	case 161:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:765
+//line asn1.y:764
 		{
 			yyVAL.ChoiceType = ChoiceType{yyDollar[1].AlternativeTypeList, yyDollar[4].ExtensionAdditionAlternativesList}
 		}
-	case 163:
+	case 162:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:766
+//line asn1.y:765
 		{
 			yyVAL.ChoiceType = ChoiceType{AlternativeTypeList: yyDollar[1].AlternativeTypeList}
 		}
-	case 164:
+	case 163:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:767
+//line asn1.y:766
 		{
 			yyVAL.ChoiceType = ChoiceType{nil, yyDollar[2].ExtensionAdditionAlternativesList}
 		}
-	case 166:
+	case 165:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:774
+//line asn1.y:773
 		{
 			yyVAL.ExtensionAdditionAlternativesList = yyDollar[2].ExtensionAdditionAlternativesList
 		}
-	case 167:
+	case 166:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:775
+//line asn1.y:774
 		{
 			yyVAL.ExtensionAdditionAlternativesList = make([]ChoiceExtension, 0)
 		}
-	case 168:
+	case 167:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:778
+//line asn1.y:777
 		{
 			yyVAL.ExtensionAdditionAlternativesList = append(make([]ChoiceExtension, 0), yyDollar[1].ExtensionAdditionAlternative)
 		}
-	case 169:
+	case 168:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:779
+//line asn1.y:778
 		{
 			yyVAL.ExtensionAdditionAlternativesList = append(yyDollar[1].ExtensionAdditionAlternativesList, yyDollar[3].ExtensionAdditionAlternative)
 		}
-	case 170:
+	case 169:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:783
+//line asn1.y:782
 		{
 			yyVAL.ExtensionAdditionAlternative = yyDollar[1].NamedType
 		}
-	case 172:
+	case 171:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:790
+//line asn1.y:789
 		{
 			yyVAL.AlternativeTypeList = append(make([]NamedType, 0), yyDollar[1].NamedType)
 		}
-	case 173:
+	case 172:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:791
+//line asn1.y:790
 		{
 			yyVAL.AlternativeTypeList = append(yyDollar[1].AlternativeTypeList, yyDollar[3].NamedType)
 		}
-	case 174:
+	case 173:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:796
+//line asn1.y:795
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[2].Type}
 		}
-	case 175:
+	case 174:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:797
+//line asn1.y:796
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[3].Type, TagType: TAGS_IMPLICIT, HasTagType: true}
 		}
-	case 176:
+	case 175:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:798
+//line asn1.y:797
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[3].Type, TagType: TAGS_EXPLICIT, HasTagType: true}
 		}
-	case 177:
+	case 176:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:801
+//line asn1.y:800
 		{
 			yyVAL.Tag = Tag{Class: yyDollar[2].Class, ClassNumber: yyDollar[3].Value}
 		}
-	case 178:
+	case 177:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:804
+//line asn1.y:803
 		{
 			yyVAL.Value = yyDollar[1].Number
 		}
-	case 179:
+	case 178:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:805
+//line asn1.y:804
 		{
 			yyVAL.Value = yyDollar[1].DefinedValue
 		}
-	case 180:
+	case 179:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:808
+//line asn1.y:807
 		{
 			yyVAL.Class = CLASS_UNIVERSAL
 		}
-	case 181:
+	case 180:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:809
+//line asn1.y:808
 		{
 			yyVAL.Class = CLASS_APPLICATION
 		}
-	case 182:
+	case 181:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:810
+//line asn1.y:809
 		{
 			yyVAL.Class = CLASS_PRIVATE
 		}
-	case 183:
+	case 182:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:811
+//line asn1.y:810
 		{
 			yyVAL.Class = CLASS_CONTEXT_SPECIFIC
 		}
-	case 184:
+	case 183:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:816
+//line asn1.y:815
 		{
 			yyVAL.Type = SequenceOfType{yyDollar[3].Type}
 		}
-	case 185:
+	case 184:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:817
+//line asn1.y:816
 		{
 			yyVAL.Type = SequenceOfType{yyDollar[3].NamedType}
 		}
-	case 186:
+	case 185:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:822
+//line asn1.y:821
 		{
 			yyVAL.Type = ObjectIdentifierType{}
 		}
-	case 187:
+	case 186:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:827
+//line asn1.y:826
 		{
 			yyVAL.ObjectIdentifierValue = yyDollar[2].ObjectIdentifierValue
 		}
-	case 188:
+	case 187:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:828
+//line asn1.y:827
 		{
 			cpy := yyDollar[2].DefinedValue
 			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{ObjectIdElement{Reference: &cpy}}, yyDollar[3].ObjectIdentifierValue...)
 		}
-	case 189:
+	case 188:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:831
+//line asn1.y:830
 		{
 			yyVAL.ObjectIdentifierValue = ObjectIdentifierValue{yyDollar[1].ObjectIdElement}
 		}
-	case 190:
+	case 189:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:832
+//line asn1.y:831
 		{
 			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{yyDollar[1].ObjectIdElement}, yyDollar[2].ObjectIdentifierValue...)
 		}
-	case 191:
+	case 190:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:835
+//line asn1.y:834
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{Name: yyDollar[1].name}
 		}
-	case 194:
+	case 193:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:838
+//line asn1.y:837
 		{
 			cpy := yyDollar[1].DefinedValue
 			yyVAL.ObjectIdElement = ObjectIdElement{Reference: &cpy}
 		}
-	case 195:
+	case 194:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:841
+//line asn1.y:840
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{ID: yyDollar[1].Number.IntValue()}
 		}
-	case 196:
+	case 195:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:842
+//line asn1.y:841
 		{
 			cpy := yyDollar[1].DefinedValue
 			yyVAL.ObjectIdElement = ObjectIdElement{Reference: &cpy}
 		}
-	case 197:
+	case 196:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:846
+//line asn1.y:845
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{Name: yyDollar[1].name, ID: yyDollar[3].ObjectIdElement.ID, Reference: yyDollar[3].ObjectIdElement.Reference}
 		}
+	case 200:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line asn1.y:857
+		{
+			yyVAL.Type = RestrictedStringType{LexType: BMPString}
+		}
 	case 201:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:858
 		{
-			yyVAL.Type = RestrictedStringType{LexType: BMPString}
+			yyVAL.Type = RestrictedStringType{LexType: GeneralString}
 		}
 	case 202:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:859
 		{
-			yyVAL.Type = RestrictedStringType{LexType: GeneralString}
+			yyVAL.Type = RestrictedStringType{LexType: GraphicString}
 		}
 	case 203:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:860
 		{
-			yyVAL.Type = RestrictedStringType{LexType: GraphicString}
+			yyVAL.Type = RestrictedStringType{LexType: IA5String}
 		}
 	case 204:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:861
 		{
-			yyVAL.Type = RestrictedStringType{LexType: IA5String}
+			yyVAL.Type = RestrictedStringType{LexType: ISO646String}
 		}
 	case 205:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:862
 		{
-			yyVAL.Type = RestrictedStringType{LexType: ISO646String}
+			yyVAL.Type = RestrictedStringType{LexType: NumericString}
 		}
 	case 206:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:863
 		{
-			yyVAL.Type = RestrictedStringType{LexType: NumericString}
+			yyVAL.Type = RestrictedStringType{LexType: PrintableString}
 		}
 	case 207:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:864
 		{
-			yyVAL.Type = RestrictedStringType{LexType: PrintableString}
+			yyVAL.Type = RestrictedStringType{LexType: TeletexString}
 		}
 	case 208:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:865
 		{
-			yyVAL.Type = RestrictedStringType{LexType: TeletexString}
+			yyVAL.Type = RestrictedStringType{LexType: T61String}
 		}
 	case 209:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:866
 		{
-			yyVAL.Type = RestrictedStringType{LexType: T61String}
+			yyVAL.Type = RestrictedStringType{LexType: UniversalString}
 		}
 	case 210:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:867
 		{
-			yyVAL.Type = RestrictedStringType{LexType: UniversalString}
+			yyVAL.Type = RestrictedStringType{LexType: UTF8String}
 		}
 	case 211:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:868
 		{
-			yyVAL.Type = RestrictedStringType{LexType: UTF8String}
+			yyVAL.Type = RestrictedStringType{LexType: VideotexString}
 		}
 	case 212:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:869
-		{
-			yyVAL.Type = RestrictedStringType{LexType: VideotexString}
-		}
-	case 213:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:870
 		{
 			yyVAL.Type = RestrictedStringType{LexType: VisibleString}
 		}
-	case 214:
+	case 213:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:875
+//line asn1.y:874
 		{
 			yyVAL.Type = CharacterStringType{}
 		}
-	case 215:
+	case 214:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:880
+//line asn1.y:879
 		{
 			yyVAL.Type = TypeReference("GeneralizedTime")
 		}
-	case 216:
+	case 215:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:881
+//line asn1.y:880
 		{
 			yyVAL.Type = TypeReference("UTCTime")
 		}
-	case 217:
+	case 216:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:886
+//line asn1.y:885
 		{
 			yyVAL.Type = ConstraintedType{yyDollar[1].Type, yyDollar[2].Constraint}
 		}
+	case 218:
+		yyDollar = yyS[yypt-4 : yypt+1]
+//line asn1.y:891
+		{
+			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].Type}, yyDollar[2].Constraint}
+		}
 	case 219:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line asn1.y:892
 		{
-			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].Type}, yyDollar[2].Constraint}
+			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].Type}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
 	case 220:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line asn1.y:893
 		{
-			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].Type}, SingleElementConstraint(yyDollar[2].Elements)}
+			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].Type}, yyDollar[2].Constraint}
 		}
 	case 221:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line asn1.y:894
 		{
-			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].Type}, yyDollar[2].Constraint}
+			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].Type}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
 	case 222:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line asn1.y:895
 		{
-			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].Type}, SingleElementConstraint(yyDollar[2].Elements)}
+			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].NamedType}, yyDollar[2].Constraint}
 		}
 	case 223:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line asn1.y:896
 		{
-			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].NamedType}, yyDollar[2].Constraint}
+			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].NamedType}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
 	case 224:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line asn1.y:897
 		{
-			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].NamedType}, SingleElementConstraint(yyDollar[2].Elements)}
+			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].NamedType}, yyDollar[2].Constraint}
 		}
 	case 225:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line asn1.y:898
-		{
-			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].NamedType}, yyDollar[2].Constraint}
-		}
-	case 226:
-		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:899
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].NamedType}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
-	case 227:
+	case 226:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:904
+//line asn1.y:903
 		{
 			yyVAL.Constraint = Constraint{ConstraintSpec: yyDollar[2].ConstraintSpec}
 		}
-	case 228:
+	case 227:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:907
+//line asn1.y:906
 		{
 			yyVAL.ConstraintSpec = yyDollar[1].SubtypeConstraint
 		}
-	case 231:
+	case 230:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:917
+//line asn1.y:916
 		{
 			yyVAL.SubtypeConstraint = yyDollar[1].SubtypeConstraint
 		}
-	case 232:
+	case 231:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:918
+//line asn1.y:917
 		{
 			yyVAL.SubtypeConstraint = append(yyDollar[1].SubtypeConstraint, yyDollar[5].ElementSetSpec)
 		}
-	case 233:
+	case 232:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:921
+//line asn1.y:920
 		{
 			yyVAL.SubtypeConstraint = SubtypeConstraint{yyDollar[1].ElementSetSpec}
 		}
-	case 235:
+	case 234:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:927
+//line asn1.y:926
 		{
 			yyVAL.ElementSetSpec = yyDollar[1].Unions
 		}
-	case 236:
+	case 235:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:928
+//line asn1.y:927
 		{
 			yyVAL.ElementSetSpec = yyDollar[2].Exclusions
 		}
-	case 237:
+	case 236:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:931
+//line asn1.y:930
 		{
 			yyVAL.Unions = Unions{yyDollar[1].Intersections}
 		}
-	case 238:
+	case 237:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:932
+//line asn1.y:931
 		{
 			yyVAL.Unions = append(yyDollar[1].Unions, yyDollar[3].Intersections)
 		}
-	case 240:
+	case 239:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:938
+//line asn1.y:937
 		{
 			yyVAL.Intersections = Intersections{yyDollar[1].IntersectionElements}
 		}
-	case 241:
+	case 240:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:939
+//line asn1.y:938
 		{
 			yyVAL.Intersections = append(yyDollar[1].Intersections, yyDollar[3].IntersectionElements)
 		}
-	case 243:
+	case 242:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:945
+//line asn1.y:944
 		{
 			yyVAL.IntersectionElements = IntersectionElements{Elements: yyDollar[1].Elements}
 		}
-	case 244:
+	case 243:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:946
+//line asn1.y:945
 		{
 			yyVAL.IntersectionElements = IntersectionElements{Elements: yyDollar[1].Elements, Exclusions: yyDollar[2].Exclusions}
 		}
-	case 246:
+	case 245:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:952
+//line asn1.y:951
 		{
 			yyVAL.Exclusions = Exclusions{yyDollar[2].Elements}
 		}
-	case 251:
+	case 250:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:961
+//line asn1.y:960
 		{
 			yyVAL.Elements = yyDollar[1].Elements
 		}
-	case 252:
+	case 251:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:963
+//line asn1.y:962
 		{
 			yyVAL.Elements = yyDollar[2].ElementSetSpec
 		}
-	case 258:
+	case 257:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:978
+//line asn1.y:977
 		{
 			yyVAL.Elements = SingleValue{yyDollar[1].Value}
 		}
-	case 259:
+	case 258:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:983
+//line asn1.y:982
 		{
 			yyVAL.Elements = ValueRange{yyDollar[1].RangeEndpoint, yyDollar[3].RangeEndpoint}
 		}
-	case 260:
+	case 259:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:986
+//line asn1.y:985
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value}
 		}
-	case 261:
+	case 260:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:987
+//line asn1.y:986
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value, IsOpen: true}
 		}
-	case 262:
+	case 261:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:990
+//line asn1.y:989
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value}
 		}
-	case 263:
+	case 262:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:991
+//line asn1.y:990
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[2].Value, IsOpen: true}
 		}
-	case 265:
+	case 264:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:995
+//line asn1.y:994
 		{
 			yyVAL.Value = nil
 		}
-	case 267:
+	case 266:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:999
+//line asn1.y:998
 		{
 			yyVAL.Value = nil
 		}
-	case 268:
+	case 267:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:1004
+//line asn1.y:1003
 		{
 			yyVAL.Elements = SizeConstraint{yyDollar[2].Constraint}
 		}
-	case 269:
+	case 268:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:1009
+//line asn1.y:1008
 		{
 			yyVAL.Elements = TypeConstraint{yyDollar[1].Type}
 		}
-	case 270:
+	case 269:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:1014
+//line asn1.y:1013
 		{
 			yyVAL.Elements = InnerTypeConstraint{}
 		}
-	case 271:
+	case 270:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:1015
+//line asn1.y:1014
 		{
 			yyVAL.Elements = InnerTypeConstraint{}
 		}
-- 
2.43.0


From 269574a16fb77829ce018fff7fa29568968b56d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 17/22] fix: accept the closing extension marker

---
 asn1.y |   24 +-
 y.go   | 1150 ++++++++++++++++++++++++++++----------------------------
 2 files changed, 581 insertions(+), 593 deletions(-)

diff --git a/asn1.y b/asn1.y
index fe871e5..01cc6c1 100644
--- a/asn1.y
+++ b/asn1.y
@@ -307,9 +307,7 @@ import (
 %type <AlternativeTypeList> AlternativeTypeList RootAlternativeTypeList
 %type <NamedType> NamedType
 %type <ExtensionAdditionAlternative> ExtensionAdditionAlternative
-%type <ExtensionAdditionAlternativesList> ExtensionAdditionAlternatives
 %type <ExtensionAdditionAlternativesList> ExtensionAdditionAlternativesList
-%type <ExtensionAdditions> ExtensionAdditions
 %type <ExtensionAdditions> ExtensionAdditionList
 %type <ExtensionAdditions> ExtensionAddition
 %type <NamedNumber> NamedNumber
@@ -697,8 +695,10 @@ OptionalExtensionMarker : COMMA ELLIPSIS | /*empty*/
 // TODO Extensions are not fully supported, extension information will be ignored.
 // Edited from the doc - ComponentTypeList used directly instead of RootComponentTypeList to avoid ambiguity around COMMA.
 ComponentTypeLists : ComponentTypeList  { $$ = ComponentTypeLists{Components: $1} }
-                   | ComponentTypeList COMMA ExtensionAndException ExtensionAdditions OptionalExtensionMarker  { $$ = ComponentTypeLists{Components: $1, ExtensionAdditions: $4} }
-                   | ComponentTypeList COMMA ExtensionAndException ExtensionAdditions ExtensionEndMarker COMMA ComponentTypeList  { $$ = ComponentTypeLists{Components: $1, ExtensionAdditions: $4, TrailingComponents: $7} }
+                   | ComponentTypeList COMMA ExtensionAndException OptionalExtensionMarker  { $$ = ComponentTypeLists{Components: $1} }
+                   | ComponentTypeList COMMA ExtensionAndException COMMA ExtensionAdditionList OptionalExtensionMarker  { $$ = ComponentTypeLists{Components: $1, ExtensionAdditions: $5} }
+                   | ComponentTypeList COMMA ExtensionAndException ExtensionEndMarker COMMA ComponentTypeList  { $$ = ComponentTypeLists{Components: $1, TrailingComponents: $6} }
+//                   | ComponentTypeList COMMA ExtensionAndException COMMA ExtensionAdditionList ExtensionEndMarker COMMA ComponentTypeList
 //                   | ExtensionAndException ExtensionAdditions ExtensionEndMarker "," RootComponentTypeList
 //                   | ExtensionAndException ExtensionAdditions OptionalExtensionMarker
 ;
@@ -710,10 +710,6 @@ RootComponentTypeList : ComponentTypeList
 ExtensionEndMarker : COMMA ELLIPSIS
 ;
 
-ExtensionAdditions : COMMA ExtensionAdditionList  { $$ = $2 }
-                   | /*empty*/  { $$ = nil }
-;
-
 ExtensionAdditionList : ExtensionAddition  { $$ = append([]ExtensionAddition{}, $1...) }
                       | ExtensionAdditionList COMMA ExtensionAddition  { $$ = append($1, $3...) }
 ;
@@ -761,19 +757,17 @@ AnyType : ANY  { $$ = AnyType{} }
 ChoiceType : CHOICE OPEN_CURLY AlternativeTypeLists CLOSE_CURLY  { $$ = $3 }
 ;
 
-AlternativeTypeLists : AlternativeTypeList COMMA ExtensionAndException ExtensionAdditionAlternatives OptionalExtensionMarker { $$ = ChoiceType{$1,$4} }
-                     | AlternativeTypeList  { $$ = ChoiceType{AlternativeTypeList: $1} }
-                     | ExtensionAndException ExtensionAdditionAlternatives OptionalExtensionMarker { $$ = ChoiceType{nil, $2} }
+AlternativeTypeLists : AlternativeTypeList  { $$ = ChoiceType{AlternativeTypeList: $1} }
+                     | AlternativeTypeList COMMA ExtensionAndException OptionalExtensionMarker  { $$ = ChoiceType{$1, make([]ChoiceExtension, 0)} }
+                     | AlternativeTypeList COMMA ExtensionAndException COMMA ExtensionAdditionAlternativesList OptionalExtensionMarker  { $$ = ChoiceType{$1, $5} }
+                     | ExtensionAndException OptionalExtensionMarker  { $$ = ChoiceType{nil, make([]ChoiceExtension, 0)} }
+                     | ExtensionAndException COMMA ExtensionAdditionAlternativesList OptionalExtensionMarker  { $$ = ChoiceType{nil, $3} }
 ;
 
 // defined in grammar, but screws up ExtensionAndException parsing
 RootAlternativeTypeList : AlternativeTypeList
 ;
 
-ExtensionAdditionAlternatives : COMMA ExtensionAdditionAlternativesList { $$ = $2 }
-                              | /*empty*/ { $$ = make([]ChoiceExtension, 0) }
-;
-
 ExtensionAdditionAlternativesList : ExtensionAdditionAlternative  { $$ = append(make([]ChoiceExtension, 0), $1) }
                                   | ExtensionAdditionAlternativesList COMMA ExtensionAdditionAlternative  { $$ = append($1, $3) }
 ;
diff --git a/y.go b/y.go
index 4cb6b04..547b51e 100644
--- a/y.go
+++ b/y.go
@@ -335,7 +335,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line asn1.y:1070
+//line asn1.y:1064
 
 //line yacctab:1
 var yyExca = [...]int16{
@@ -349,226 +349,227 @@ var yyExca = [...]int16{
 	31, 3,
 	-2, 2,
 	-1, 178,
-	44, 238,
-	94, 238,
-	-2, 234,
+	44, 237,
+	94, 237,
+	-2, 233,
 	-1, 180,
-	46, 241,
-	53, 241,
-	-2, 236,
+	46, 240,
+	53, 240,
+	-2, 235,
 	-1, 184,
-	60, 244,
-	-2, 242,
+	60, 243,
+	-2, 241,
 	-1, 193,
-	16, 263,
-	28, 263,
-	-2, 257,
+	16, 262,
+	28, 262,
+	-2, 256,
 	-1, 251,
 	32, 6,
 	-2, 4,
 	-1, 327,
-	46, 241,
-	53, 241,
-	-2, 237,
-	-1, 419,
-	30, 137,
+	46, 240,
+	53, 240,
+	-2, 236,
+	-1, 404,
+	30, 138,
 	-2, 131,
 }
 
 const yyPrivate = 57344
 
-const yyLast = 910
+const yyLast = 932
 
 var yyAct = [...]int16{
-	205, 218, 208, 406, 217, 207, 372, 348, 17, 127,
-	315, 219, 193, 177, 17, 258, 237, 311, 289, 280,
-	276, 331, 249, 241, 209, 163, 180, 195, 245, 202,
-	182, 261, 170, 184, 159, 216, 240, 3, 144, 5,
-	151, 38, 293, 29, 19, 133, 414, 19, 19, 19,
-	168, 272, 11, 9, 204, 273, 264, 204, 19, 46,
-	294, 54, 46, 295, 226, 232, 19, 214, 165, 409,
-	332, 231, 45, 54, 24, 45, 204, 190, 169, 19,
-	168, 46, 65, 150, 224, 223, 46, 233, 23, 140,
-	21, 62, 125, 22, 45, 128, 415, 10, 165, 45,
-	35, 135, 152, 334, 262, 31, 265, 128, 169, 137,
-	142, 172, 413, 148, 134, 129, 267, 19, 168, 42,
-	36, 259, 162, 268, 121, 139, 58, 164, 161, 164,
-	145, 61, 210, 213, 60, 50, 165, 139, 428, 155,
-	220, 172, 203, 220, 220, 123, 169, 307, 222, 225,
-	59, 171, 162, 230, 220, 103, 141, 212, 161, 398,
-	154, 397, 220, 386, 221, 215, 252, 238, 136, 229,
-	227, 334, 244, 383, 234, 235, 228, 138, 143, 172,
-	316, 171, 124, 246, 122, 63, 41, 128, 164, 243,
-	162, 44, 368, 53, 44, 382, 161, 4, 48, 323,
-	277, 270, 257, 329, 318, 53, 47, 48, 317, 126,
-	32, 128, 343, 44, 313, 255, 286, 269, 44, 171,
-	282, 254, 341, 429, 27, 342, 128, 324, 430, 308,
-	423, 424, 420, 283, 306, 297, 299, 287, 418, 429,
-	288, 404, 401, 303, 305, 290, 300, 252, 252, 393,
-	392, 296, 298, 385, 380, 40, 281, 370, 292, 302,
-	304, 285, 279, 164, 164, 260, 62, 164, 274, 391,
-	363, 361, 164, 15, 355, 310, 312, 321, 4, 48,
-	309, 301, 336, 291, 333, 320, 210, 322, 351, 213,
-	327, 345, 284, 349, 358, 164, 326, 328, 165, 346,
-	278, 30, 25, 340, 353, 199, 132, 359, 131, 344,
-	130, 7, 352, 354, 366, 19, 19, 19, 419, 356,
-	325, 271, 357, 360, 422, 373, 350, 204, 64, 28,
-	248, 365, 362, 164, 12, 369, 364, 367, 14, 19,
-	18, 375, 314, 277, 14, 333, 256, 18, 26, 4,
-	48, 239, 47, 48, 371, 4, 48, 253, 55, 48,
-	377, 378, 19, 376, 379, 48, 381, 4, 319, 164,
-	412, 164, 4, 251, 253, 395, 394, 387, 374, 339,
-	338, 388, 337, 335, 390, 396, 266, 407, 400, 55,
-	19, 168, 349, 375, 375, 263, 421, 408, 399, 410,
-	411, 403, 210, 402, 39, 34, 1, 417, 416, 165,
-	206, 211, 405, 384, 347, 187, 201, 120, 200, 169,
-	72, 153, 407, 425, 426, 210, 427, 351, 242, 43,
-	57, 358, 94, 56, 37, 275, 69, 99, 179, 93,
-	110, 100, 77, 86, 149, 139, 236, 102, 198, 84,
-	82, 81, 172, 80, 88, 79, 95, 114, 106, 67,
-	111, 85, 89, 162, 96, 113, 91, 90, 71, 161,
-	119, 104, 97, 197, 92, 107, 55, 19, 168, 108,
-	330, 194, 192, 109, 191, 186, 189, 188, 185, 115,
-	183, 181, 171, 105, 178, 389, 165, 116, 176, 175,
-	112, 117, 187, 174, 120, 118, 169, 173, 98, 196,
-	101, 87, 68, 33, 49, 51, 52, 167, 166, 94,
-	157, 160, 78, 158, 99, 156, 93, 110, 100, 247,
-	250, 83, 139, 73, 75, 198, 66, 70, 74, 172,
-	76, 88, 6, 95, 114, 106, 16, 111, 13, 89,
-	162, 96, 113, 2, 8, 20, 161, 119, 104, 97,
-	0, 92, 107, 47, 48, 323, 108, 0, 0, 0,
-	109, 0, 0, 0, 0, 0, 115, 0, 0, 171,
-	105, 0, 0, 0, 116, 0, 0, 112, 117, 0,
-	0, 120, 118, 324, 0, 98, 196, 101, 0, 0,
-	0, 0, 0, 0, 0, 0, 94, 0, 0, 0,
-	0, 99, 0, 93, 110, 100, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 88, 0,
-	95, 114, 106, 0, 111, 0, 89, 55, 96, 113,
-	0, 0, 0, 0, 119, 104, 97, 0, 92, 107,
-	0, 0, 0, 108, 0, 0, 0, 109, 0, 0,
-	0, 0, 0, 115, 0, 120, 0, 105, 0, 0,
-	0, 116, 0, 0, 112, 117, 0, 0, 0, 118,
-	94, 0, 98, 0, 101, 99, 0, 93, 110, 100,
-	0, 0, 0, 0, 0, 147, 0, 0, 0, 0,
-	0, 0, 88, 0, 95, 114, 106, 0, 111, 0,
-	89, 0, 96, 113, 55, 19, 0, 0, 119, 104,
-	97, 0, 92, 107, 0, 0, 0, 108, 0, 0,
-	0, 109, 0, 0, 0, 0, 0, 115, 0, 146,
-	0, 105, 120, 0, 0, 116, 0, 0, 112, 117,
-	0, 0, 0, 118, 0, 0, 98, 94, 101, 0,
-	0, 0, 99, 0, 93, 110, 100, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 88,
-	0, 95, 114, 106, 0, 111, 0, 89, 55, 96,
-	113, 0, 0, 0, 0, 119, 104, 97, 0, 92,
-	107, 0, 0, 0, 108, 0, 0, 0, 109, 0,
-	0, 0, 0, 0, 115, 0, 120, 0, 105, 0,
-	0, 0, 116, 0, 0, 112, 117, 0, 0, 0,
-	118, 94, 0, 98, 0, 101, 99, 0, 93, 110,
-	100, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 88, 0, 95, 114, 106, 0, 111,
-	0, 89, 0, 96, 113, 0, 0, 0, 0, 119,
-	104, 97, 0, 92, 107, 0, 0, 0, 108, 0,
+	205, 218, 208, 217, 280, 207, 406, 371, 17, 347,
+	348, 219, 127, 177, 17, 315, 258, 276, 193, 237,
+	311, 331, 241, 249, 202, 209, 245, 261, 170, 144,
+	182, 216, 163, 151, 180, 159, 195, 184, 5, 240,
+	3, 293, 38, 415, 19, 168, 29, 11, 9, 133,
+	295, 19, 19, 168, 19, 190, 233, 264, 46, 294,
+	54, 46, 272, 165, 204, 332, 273, 24, 232, 231,
+	224, 165, 54, 169, 226, 45, 150, 23, 45, 223,
+	46, 169, 22, 21, 19, 46, 19, 35, 31, 19,
+	168, 65, 10, 416, 204, 152, 204, 45, 334, 148,
+	19, 125, 45, 62, 214, 134, 172, 265, 165, 414,
+	346, 409, 137, 142, 172, 129, 42, 162, 169, 262,
+	47, 48, 36, 161, 429, 162, 19, 164, 140, 164,
+	259, 161, 210, 213, 128, 135, 404, 409, 121, 145,
+	61, 128, 203, 334, 50, 155, 171, 220, 222, 58,
+	220, 172, 225, 230, 171, 138, 143, 123, 212, 60,
+	215, 316, 162, 154, 139, 227, 252, 103, 161, 40,
+	238, 139, 228, 221, 267, 244, 59, 307, 229, 124,
+	220, 268, 220, 234, 235, 400, 246, 128, 164, 317,
+	243, 171, 367, 399, 63, 141, 220, 388, 257, 384,
+	277, 270, 136, 44, 383, 53, 44, 122, 4, 48,
+	323, 329, 41, 269, 318, 32, 126, 53, 128, 343,
+	289, 282, 220, 255, 313, 44, 286, 27, 431, 254,
+	44, 308, 300, 128, 306, 297, 299, 341, 324, 430,
+	342, 430, 283, 303, 305, 426, 287, 252, 252, 288,
+	421, 381, 410, 403, 395, 394, 386, 379, 369, 290,
+	296, 298, 292, 164, 164, 285, 281, 164, 302, 304,
+	279, 260, 164, 310, 312, 62, 274, 15, 425, 393,
+	321, 4, 48, 362, 360, 336, 210, 355, 351, 213,
+	333, 345, 320, 349, 357, 164, 322, 328, 327, 309,
+	326, 165, 365, 301, 344, 30, 291, 353, 284, 278,
+	25, 340, 199, 358, 354, 132, 131, 356, 130, 352,
+	7, 346, 325, 271, 64, 19, 19, 28, 19, 19,
+	12, 361, 359, 164, 364, 346, 372, 363, 350, 204,
+	423, 374, 248, 277, 26, 4, 48, 239, 368, 378,
+	14, 333, 380, 366, 370, 314, 14, 4, 48, 253,
+	375, 385, 256, 376, 377, 19, 18, 382, 164, 18,
+	164, 4, 251, 253, 47, 48, 55, 48, 19, 48,
+	4, 389, 319, 392, 413, 397, 390, 398, 407, 401,
+	396, 349, 402, 349, 373, 374, 374, 339, 338, 337,
+	335, 266, 411, 412, 210, 263, 417, 422, 408, 419,
+	420, 55, 19, 168, 424, 387, 39, 34, 1, 418,
+	206, 211, 405, 407, 201, 200, 428, 210, 427, 351,
+	72, 165, 357, 153, 242, 43, 57, 187, 56, 120,
+	37, 169, 275, 69, 77, 86, 149, 236, 102, 84,
+	82, 81, 80, 79, 94, 67, 85, 91, 90, 99,
+	179, 93, 110, 100, 71, 197, 330, 139, 194, 192,
+	198, 191, 186, 189, 172, 188, 88, 185, 95, 114,
+	106, 183, 111, 181, 89, 162, 96, 113, 178, 391,
+	176, 161, 119, 104, 97, 175, 92, 107, 55, 19,
+	168, 108, 174, 173, 87, 109, 68, 33, 49, 51,
+	52, 115, 167, 166, 171, 105, 157, 160, 165, 116,
+	78, 158, 112, 117, 187, 156, 120, 118, 169, 247,
+	98, 196, 101, 250, 83, 73, 75, 66, 70, 74,
+	76, 94, 6, 16, 13, 2, 99, 8, 93, 110,
+	100, 20, 0, 0, 139, 0, 0, 198, 0, 0,
+	0, 172, 0, 88, 0, 95, 114, 106, 0, 111,
+	0, 89, 162, 96, 113, 0, 0, 0, 161, 119,
+	104, 97, 0, 92, 107, 47, 48, 323, 108, 0,
 	0, 0, 109, 0, 0, 0, 0, 0, 115, 0,
-	0, 0, 105, 0, 0, 0, 116, 0, 0, 112,
-	117, 0, 0, 0, 118, 0, 0, 98, 0, 101,
+	0, 171, 105, 0, 0, 0, 116, 0, 0, 112,
+	117, 0, 0, 120, 118, 324, 0, 98, 196, 101,
+	0, 0, 0, 0, 0, 0, 0, 0, 94, 0,
+	0, 0, 0, 99, 0, 93, 110, 100, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	88, 0, 95, 114, 106, 0, 111, 0, 89, 55,
+	96, 113, 0, 0, 0, 0, 119, 104, 97, 0,
+	92, 107, 0, 0, 0, 108, 0, 0, 0, 109,
+	0, 0, 0, 0, 0, 115, 0, 120, 0, 105,
+	0, 0, 0, 116, 0, 0, 112, 117, 0, 0,
+	0, 118, 94, 0, 98, 0, 101, 99, 0, 93,
+	110, 100, 0, 0, 0, 0, 0, 147, 0, 0,
+	0, 0, 0, 0, 88, 0, 95, 114, 106, 0,
+	111, 0, 89, 0, 96, 113, 55, 19, 0, 0,
+	119, 104, 97, 0, 92, 107, 0, 0, 0, 108,
+	0, 0, 0, 109, 0, 0, 0, 0, 0, 115,
+	0, 146, 0, 105, 120, 0, 0, 116, 0, 0,
+	112, 117, 0, 0, 0, 118, 0, 0, 98, 94,
+	101, 0, 0, 0, 99, 0, 93, 110, 100, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 88, 0, 95, 114, 106, 0, 111, 0, 89,
+	55, 96, 113, 0, 0, 0, 0, 119, 104, 97,
+	0, 92, 107, 0, 0, 0, 108, 0, 0, 0,
+	109, 0, 0, 0, 0, 0, 115, 0, 120, 0,
+	105, 0, 0, 0, 116, 0, 0, 112, 117, 0,
+	0, 0, 118, 94, 0, 98, 0, 101, 99, 0,
+	93, 110, 100, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 88, 0, 95, 114, 106,
+	0, 111, 0, 89, 0, 96, 113, 0, 0, 0,
+	0, 119, 104, 97, 0, 92, 107, 0, 0, 0,
+	108, 0, 0, 0, 109, 0, 0, 0, 0, 0,
+	115, 0, 0, 0, 105, 0, 0, 0, 116, 0,
+	0, 112, 117, 0, 0, 0, 118, 0, 0, 98,
+	0, 101,
 }
 
 var yyPact = [...]int16{
-	361, -1000, -80, 285, -1000, -11, -1000, 332, 18, 15,
-	10, -4, 275, 332, -1000, -1000, -1000, 192, -1000, -1000,
-	314, -69, -1000, -1000, -1000, -1000, -1000, 339, 38, -1000,
-	177, 32, -1000, 68, -75, 200, -1000, 352, 346, 92,
-	89, 236, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 352,
-	-1000, -1000, -1000, 313, 782, -1000, 82, 346, -1000, 61,
-	-1000, -1000, 346, -1000, 782, 194, -1000, -1000, -1000, -1000,
+	374, -1000, -81, 294, -1000, -16, -1000, 358, 11, 4,
+	-1, -11, 283, 358, -1000, -1000, -1000, 195, -1000, -1000,
+	312, -66, -1000, -1000, -1000, -1000, -1000, 361, 21, -1000,
+	182, 19, -1000, 70, -74, 114, -1000, 370, 368, 117,
+	98, 245, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 370,
+	-1000, -1000, -1000, 309, 804, -1000, 96, 368, -1000, 73,
+	-1000, -1000, 368, -1000, 804, 201, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 49, -1000,
-	-1000, -1000, 284, 282, 280, -1000, -59, 48, -1000, 75,
-	63, -90, 631, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 47,
-	-19, -1000, -1000, 361, -1000, 179, 72, -1000, 383, 279,
-	310, 355, 355, -1000, -1000, 40, 708, -8, -9, 179,
-	37, 708, -22, -28, 4, 179, 782, 782, -1000, 343,
-	-1000, -1000, -1000, -1000, 272, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, 366, -1000, -1000, 190, 338,
-	-1000, -1000, -1000, 76, -1000, -1000, 235, -1000, -1000, 44,
-	-1000, 12, -1000, 70, -1000, 44, -1000, 383, -1000, -1000,
-	-1000, -1000, -1000, -1000, 305, 179, -48, 240, -1000, 355,
-	273, 232, 226, -1000, 76, 782, 265, 231, -1000, -1000,
-	184, 210, -1000, 184, -1000, 215, 256, 228, -1000, -55,
-	-30, 179, -1000, 708, 708, -1000, -1000, 215, 254, 179,
-	-1000, 708, 708, 355, 179, 179, 112, -1000, -1000, -1000,
-	198, -1000, -1000, -1000, -1000, 253, 366, 366, -1000, -1000,
-	-1000, -1000, 182, -1000, 334, 172, 190, -1000, 171, 557,
-	303, -1000, 470, 470, -1000, -1000, 470, -1000, -1000, -1000,
-	170, 42, 179, 277, -1000, 195, -1000, 180, -1000, 310,
-	215, 355, -1000, 179, -1000, 309, 191, -1000, 355, 247,
-	302, -1000, 59, -1000, 72, 782, 179, -1000, 179, -1000,
-	244, -1000, 179, -1000, 179, -1000, -1000, -1000, 358, -1000,
-	243, -1000, -1000, 349, 289, -1000, -1000, 329, -1000, -1000,
-	-1000, -1000, 155, -1000, 327, 227, -1000, -1000, -1000, -1000,
-	-1000, -1000, 110, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	308, -1000, 355, 343, 226, -1000, -1000, 224, -1000, -1000,
-	76, -1000, 162, 140, -1000, -1000, -1000, 223, -1000, -1000,
-	179, -1000, -1000, -1000, 130, -1000, 172, -1000, 72, -1000,
-	383, -1000, 242, 220, 219, 179, -1000, 128, 126, 215,
-	355, 212, -1000, -1000, 211, 51, -1000, -1000, -1000, -1000,
-	-1000, -1000, 355, 355, -1000, -1, -1000, -1000, -1000, -1000,
-	-1000, 355, -1000, 208, 301, 202, -1000, -1000, -1000, 316,
-	203, -1000, -1000, -1000, -1000, -1000, -1000, 201, 41, -1000,
-	51, 41, 101, -1000, 355, 193, -1000, 209, -1000, 41,
-	-1000,
+	-1000, -1000, 292, 290, 289, -1000, -55, 39, -1000, 109,
+	102, -99, 653, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 33,
+	-26, -1000, -1000, 374, -1000, 186, 45, -1000, 405, 286,
+	322, 371, 371, -1000, -1000, 77, 730, -14, -23, 186,
+	47, 730, -24, -25, -27, 186, 804, 804, -1000, 339,
+	-1000, -1000, -1000, -1000, 275, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, 365, -1000, -1000, 198, 354,
+	-1000, -1000, -1000, 85, -1000, -1000, 241, -1000, -1000, 59,
+	-1000, 13, -1000, 128, -1000, 59, -1000, 405, -1000, -1000,
+	-1000, -1000, -1000, -1000, 307, 186, -37, 248, -1000, 371,
+	282, 240, 236, -1000, 85, 804, 281, 235, -1000, -1000,
+	194, 219, -1000, 194, -1000, 229, 279, 232, -1000, -56,
+	-43, 186, -1000, 730, 730, -1000, -1000, 229, 276, 186,
+	-1000, 730, 730, 371, 186, 186, 142, -1000, -1000, -1000,
+	200, -1000, -1000, -1000, -1000, 272, 365, 365, -1000, -1000,
+	-1000, -1000, 192, -1000, 347, 153, 198, -1000, 181, 579,
+	305, -1000, 492, 492, -1000, -1000, 492, -1000, -1000, -1000,
+	178, 37, 186, 285, -1000, 210, -1000, 187, -1000, 322,
+	-1000, 318, -1000, 186, -1000, 321, 202, -1000, 371, 260,
+	304, -1000, 79, -1000, 45, 804, 186, -1000, 186, -1000,
+	257, -1000, 186, -1000, 186, -1000, -1000, -1000, 372, -1000,
+	256, -1000, -1000, 351, 277, -1000, -1000, 345, -1000, -1000,
+	-1000, -1000, 155, -1000, 340, 228, -1000, -1000, -1000, -1000,
+	-1000, -1000, 82, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	319, -1000, 371, 339, 227, -1000, -1000, 221, -1000, -1000,
+	85, -1000, 171, 166, -1000, -1000, 226, -1000, -1000, 186,
+	-1000, -1000, -1000, 164, -1000, 153, -1000, 45, -1000, 405,
+	-1000, 252, 225, 224, 186, -1000, 160, 152, -1000, 318,
+	-1000, 318, 223, -1000, -1000, -1000, 119, 222, -1000, -1000,
+	-1000, -1000, -1000, -1000, 371, 371, -1000, -4, -1000, -1000,
+	-1000, 221, -1000, 371, -1000, 220, -1000, -1000, -1000, 332,
+	44, 251, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 215,
+	-1000, 93, 44, 87, 211, -1000, 371, -1000, 209, -1000,
+	44, -1000,
 }
 
 var yyPgo = [...]int16{
-	0, 32, 10, 36, 155, 0, 555, 554, 553, 548,
-	273, 334, 546, 542, 330, 17, 540, 538, 537, 536,
-	27, 534, 533, 531, 11, 22, 530, 529, 28, 34,
-	525, 12, 523, 522, 521, 520, 518, 517, 25, 16,
-	135, 516, 515, 514, 513, 23, 512, 511, 9, 507,
-	503, 499, 498, 495, 13, 494, 491, 26, 490, 30,
-	31, 33, 488, 487, 486, 485, 484, 482, 77, 481,
-	480, 473, 21, 468, 467, 466, 461, 459, 455, 453,
-	451, 450, 1, 4, 450, 35, 449, 447, 446, 444,
-	443, 442, 436, 435, 20, 434, 433, 430, 126, 150,
-	119, 429, 428, 421, 420, 418, 416, 416, 7, 19,
-	414, 413, 412, 3, 24, 411, 410, 5, 408, 2,
-	406, 405, 404, 15, 29, 18, 401, 397, 396, 396,
-	395, 386, 383, 382, 380, 379, 6, 378, 376, 375,
-	370, 368,
+	0, 28, 15, 39, 167, 0, 551, 547, 545, 544,
+	277, 330, 543, 542, 342, 20, 540, 539, 538, 537,
+	36, 536, 535, 534, 11, 23, 533, 529, 26, 35,
+	525, 18, 521, 520, 517, 516, 513, 512, 32, 19,
+	144, 510, 509, 508, 507, 22, 506, 504, 12, 503,
+	502, 495, 490, 489, 13, 488, 483, 34, 481, 30,
+	27, 37, 477, 475, 473, 472, 471, 469, 55, 468,
+	466, 465, 21, 464, 458, 457, 456, 455, 453, 452,
+	451, 450, 1, 3, 450, 31, 449, 448, 447, 446,
+	445, 444, 443, 442, 17, 440, 438, 436, 149, 176,
+	116, 435, 434, 433, 430, 425, 424, 424, 10, 9,
+	422, 6, 25, 421, 420, 5, 419, 2, 418, 417,
+	416, 16, 24, 4, 415, 408, 407, 407, 405, 401,
+	400, 399, 398, 397, 7, 394, 390, 385, 384, 382,
 }
 
 var yyR1 = [...]uint8{
-	0, 120, 4, 3, 45, 39, 5, 8, 13, 13,
+	0, 118, 4, 3, 45, 39, 5, 8, 13, 13,
 	11, 11, 9, 9, 9, 10, 12, 7, 7, 7,
-	7, 6, 6, 44, 44, 121, 121, 121, 122, 122,
+	7, 6, 6, 44, 44, 119, 119, 119, 120, 120,
 	95, 95, 96, 96, 97, 97, 98, 103, 102, 102,
 	102, 99, 99, 100, 101, 101, 101, 43, 43, 40,
 	40, 76, 15, 15, 42, 41, 20, 20, 20, 19,
 	19, 19, 19, 19, 19, 19, 19, 19, 19, 19,
 	19, 19, 19, 19, 19, 77, 77, 24, 31, 30,
-	30, 30, 30, 18, 35, 35, 17, 17, 115, 115,
-	114, 114, 38, 38, 32, 32, 22, 116, 116, 116,
-	118, 117, 117, 119, 119, 33, 34, 34, 36, 36,
+	30, 30, 30, 18, 35, 35, 17, 17, 113, 113,
+	112, 112, 38, 38, 32, 32, 22, 114, 114, 114,
+	116, 115, 115, 117, 117, 33, 34, 34, 36, 36,
 	37, 37, 1, 1, 1, 1, 2, 2, 92, 92,
-	93, 93, 94, 94, 91, 21, 78, 78, 78, 124,
-	124, 125, 125, 85, 85, 85, 84, 126, 111, 111,
-	112, 112, 113, 113, 127, 128, 128, 83, 83, 82,
-	82, 82, 82, 80, 80, 80, 81, 81, 23, 23,
-	104, 105, 105, 105, 107, 109, 109, 110, 110, 108,
-	129, 106, 106, 86, 86, 86, 87, 88, 88, 89,
-	89, 89, 89, 79, 79, 16, 29, 29, 28, 28,
-	27, 27, 27, 27, 25, 25, 26, 14, 73, 73,
+	93, 93, 94, 94, 91, 21, 78, 78, 78, 122,
+	122, 123, 123, 85, 85, 85, 85, 84, 124, 110,
+	110, 111, 111, 125, 126, 126, 83, 83, 82, 82,
+	82, 82, 80, 80, 80, 81, 81, 23, 23, 104,
+	105, 105, 105, 105, 105, 107, 109, 109, 108, 127,
+	106, 106, 86, 86, 86, 87, 88, 88, 89, 89,
+	89, 89, 79, 79, 16, 29, 29, 28, 28, 27,
+	27, 27, 27, 25, 25, 26, 14, 73, 73, 74,
 	74, 74, 74, 74, 74, 74, 74, 74, 74, 74,
-	74, 74, 74, 75, 90, 90, 46, 46, 47, 47,
-	47, 47, 47, 47, 47, 47, 48, 49, 50, 51,
-	51, 51, 52, 53, 54, 54, 55, 55, 56, 57,
-	57, 58, 59, 59, 62, 60, 130, 130, 131, 131,
-	61, 61, 65, 65, 65, 65, 65, 63, 64, 69,
-	69, 70, 70, 71, 71, 72, 72, 68, 66, 67,
-	67, 132, 133, 133, 134, 135, 136, 136, 137, 138,
-	139, 139, 140, 140, 140, 140, 123, 123, 141, 141,
-	141,
+	74, 74, 75, 90, 90, 46, 46, 47, 47, 47,
+	47, 47, 47, 47, 47, 48, 49, 50, 51, 51,
+	51, 52, 53, 54, 54, 55, 55, 56, 57, 57,
+	58, 59, 59, 62, 60, 128, 128, 129, 129, 61,
+	61, 65, 65, 65, 65, 65, 63, 64, 69, 69,
+	70, 70, 71, 71, 72, 72, 68, 66, 67, 67,
+	130, 131, 131, 132, 133, 134, 134, 135, 136, 137,
+	137, 138, 138, 138, 138, 121, 121, 139, 139, 139,
 }
 
 var yyR2 = [...]int8{
@@ -585,30 +586,29 @@ var yyR2 = [...]int8{
 	1, 1, 3, 1, 1, 1, 1, 1, 1, 2,
 	1, 1, 1, 3, 5, 3, 1, 2, 2, 5,
 	1, 3, 4, 4, 2, 1, 3, 5, 4, 1,
-	2, 2, 0, 1, 5, 7, 1, 2, 2, 0,
-	1, 3, 1, 1, 4, 0, 2, 1, 3, 1,
-	2, 3, 3, 3, 5, 4, 3, 3, 1, 4,
-	4, 5, 1, 3, 1, 2, 0, 1, 3, 1,
-	4, 1, 3, 2, 3, 3, 4, 1, 1, 1,
-	1, 1, 0, 3, 3, 2, 3, 4, 1, 2,
-	1, 1, 1, 1, 1, 1, 4, 1, 1, 1,
+	2, 2, 0, 1, 4, 6, 6, 1, 2, 1,
+	3, 1, 1, 4, 0, 2, 1, 3, 1, 2,
+	3, 3, 3, 5, 4, 3, 3, 1, 4, 4,
+	1, 4, 6, 2, 4, 1, 1, 3, 1, 4,
+	1, 3, 2, 3, 3, 4, 1, 1, 1, 1,
+	1, 0, 3, 3, 2, 3, 4, 1, 2, 1,
+	1, 1, 1, 1, 1, 4, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	1, 1, 1, 2, 1, 1, 2, 1, 4, 4,
-	4, 4, 4, 4, 4, 4, 4, 1, 1, 1,
-	3, 5, 1, 1, 1, 2, 1, 3, 1, 1,
-	3, 1, 1, 2, 1, 2, 1, 1, 1, 1,
-	1, 3, 1, 1, 1, 1, 1, 1, 3, 1,
-	2, 1, 2, 1, 1, 1, 1, 2, 1, 3,
-	3, 1, 1, 1, 3, 5, 1, 3, 2, 2,
-	1, 0, 1, 1, 1, 0, 2, 0, 1, 1,
-	3,
+	1, 1, 2, 1, 1, 2, 1, 4, 4, 4,
+	4, 4, 4, 4, 4, 4, 1, 1, 1, 3,
+	5, 1, 1, 1, 2, 1, 3, 1, 1, 3,
+	1, 1, 2, 1, 2, 1, 1, 1, 1, 1,
+	3, 1, 1, 1, 1, 1, 1, 3, 1, 2,
+	1, 2, 1, 1, 1, 1, 2, 1, 3, 3,
+	1, 1, 1, 3, 5, 1, 3, 2, 2, 1,
+	0, 1, 1, 1, 0, 2, 0, 1, 1, 3,
 }
 
 var yyChk = [...]int16{
-	-1000, -120, -8, -3, 6, 119, -13, 26, -7, 64,
+	-1000, -118, -8, -3, 6, 119, -13, 26, -7, 64,
 	108, 63, -11, -9, -14, -10, -12, -5, 8, 7,
 	-6, 72, 78, 78, 78, 27, -11, 32, 15, 112,
-	-10, 67, 33, -44, -121, 68, 52, -95, 116, -122,
+	-10, 67, 33, -44, -119, 68, 52, -95, 116, -120,
 	55, -99, -100, -101, -4, -3, -45, 6, 7, -43,
 	-40, -42, -41, -4, -45, 6, -96, -97, -98, -99,
 	42, 42, 30, -40, 15, -20, -19, -77, -46, -92,
@@ -625,77 +625,77 @@ var yyChk = [...]int16{
 	-1, 109, 69, -49, -50, -51, -52, -54, -55, 55,
 	-57, -56, -59, -58, -61, -62, -65, 32, -63, -64,
 	-68, -66, -67, -31, -69, -20, 126, -71, 65, 26,
-	-105, -106, -124, -24, 17, -5, -116, -117, -119, -114,
-	-5, -115, -114, -5, 27, -124, -85, -83, -82, -24,
-	103, -20, -24, 93, 93, -48, 27, -124, -85, -20,
+	-105, -106, -122, -24, 17, -5, -114, -115, -117, -112,
+	-5, -113, -112, -5, 27, -122, -85, -83, -82, -24,
+	103, -20, -24, 93, 93, -48, 27, -122, -85, -20,
 	-24, 93, 93, 83, -20, -20, -88, -39, -15, 8,
 	-3, -45, -102, -29, -15, -28, -15, -27, -14, -25,
-	-26, 7, -5, 8, 31, 25, 8, -1, -123, 45,
-	30, -60, 60, -130, 44, 94, -131, 46, 53, -60,
+	-26, 7, -5, 8, 31, 25, 8, -1, -121, 45,
+	30, -60, 60, -128, 44, 94, -129, 46, 53, -60,
 	-54, 16, 99, 103, 28, -93, -94, -5, 27, 30,
-	-109, 30, -123, -20, 27, 30, 32, 27, 30, -125,
+	-123, 30, -121, -20, 27, 30, 32, 27, 30, -123,
 	30, 27, 30, 97, 115, 93, -20, -24, -20, -24,
-	-125, 27, -20, -24, -20, -24, -5, 35, 31, 27,
-	-28, -15, -28, 32, 8, -2, 8, 36, 33, -141,
+	-123, 27, -20, -24, -20, -24, -5, 35, 31, 27,
+	-28, -15, -28, 32, 8, -2, 8, 36, 33, -139,
 	-38, -15, -20, 8, 36, 17, -61, -57, -59, 33,
-	-70, -72, 28, -31, 61, -132, -48, -133, -134, -135,
-	26, 27, 30, 32, -124, -24, -125, -110, -108, -24,
-	17, -119, -38, -15, -114, 27, 17, -124, -82, -31,
-	-20, 27, -45, 27, -25, -15, 25, 8, 37, 8,
-	30, -72, -136, 17, -137, -5, -94, -39, -15, -109,
-	30, -123, 33, 33, -111, 30, 33, -2, -31, -53,
-	-54, 27, 30, 30, -138, -139, -48, 33, 33, -125,
-	-108, 30, -125, -126, 30, -112, -113, -82, -127, 18,
-	-136, -136, -140, 113, 47, 97, -118, -117, 30, 17,
-	30, -128, 8, 27, 30, -83, -113, -83, 37, 30,
-	19,
+	-70, -72, 28, -31, 61, -130, -48, -131, -132, -133,
+	26, 27, 30, 32, -122, -24, 17, -109, -108, -24,
+	17, -117, -38, -15, -112, 27, -122, -82, -31, -20,
+	27, -45, 27, -25, -15, 25, 8, 37, 8, 30,
+	-72, -134, 17, -135, -5, -94, -39, -15, -123, 30,
+	-123, 30, -121, 33, 33, -123, 30, -124, 33, -2,
+	-31, -53, -54, 27, 30, 30, -136, -137, -48, 33,
+	33, -109, -108, 30, 17, -110, -111, -82, -125, 18,
+	30, -134, -134, -138, 113, 47, 97, -123, -116, -115,
+	-123, 30, -126, 8, -83, 27, 30, -111, -83, 37,
+	30, 19,
 }
 
 var yyDef = [...]int16{
 	0, -2, 0, 9, 3, 20, 7, 0, 22, 0,
-	0, 0, 0, 10, 12, 13, 14, 197, 15, 6,
+	0, 0, 0, 10, 12, 13, 14, 196, 15, 6,
 	0, 0, 17, 18, 19, 8, 11, 0, 0, 21,
 	0, -2, 16, 0, 31, 29, 1, 0, 33, 0,
 	0, 28, 41, 43, 44, 45, 46, -2, 4, 23,
 	47, 49, 50, 0, 0, 2, 0, 32, 34, 0,
 	25, 26, 0, 48, 0, 0, 56, 57, 58, 59,
 	60, 61, 62, 63, 64, 65, 66, 67, 68, 69,
-	70, 71, 72, 73, 74, 75, 76, 217, 0, 83,
-	198, 199, 0, 0, 86, 125, 0, 0, 105, 0,
-	0, 158, 0, 51, 214, 215, 200, 201, 202, 203,
-	204, 205, 206, 207, 208, 209, 210, 211, 212, 0,
-	182, 30, 35, 0, 42, 54, 0, 216, 0, 118,
-	0, 0, 0, 185, 124, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 173, 0, 0, 213, 0,
-	179, 180, 181, 36, 40, 55, 78, 79, 80, 81,
+	70, 71, 72, 73, 74, 75, 76, 216, 0, 83,
+	197, 198, 0, 0, 86, 125, 0, 0, 105, 0,
+	0, 157, 0, 51, 213, 214, 199, 200, 201, 202,
+	203, 204, 205, 206, 207, 208, 209, 210, 211, 0,
+	181, 30, 35, 0, 42, 54, 0, 215, 0, 118,
+	0, 0, 0, 184, 124, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 172, 0, 0, 212, 0,
+	178, 179, 180, 36, 40, 55, 78, 79, 80, 81,
 	82, 84, 85, 94, 95, 0, 106, 107, 92, 0,
-	108, 110, 111, 287, 227, 228, 229, 232, -2, 0,
-	-2, 0, 239, 0, -2, 0, 250, 0, 252, 253,
-	254, 255, 256, -2, 0, 268, 0, 259, 264, 0,
-	0, 162, 166, 171, 129, 0, 0, 97, 101, 103,
-	104, 0, 88, 0, 126, 132, 0, 133, 147, 149,
-	0, 183, 184, 0, 0, 267, 153, 132, 0, 156,
-	157, 0, 0, 0, 174, 175, 0, 177, 178, 5,
-	0, 53, 37, 38, 39, 0, 193, 188, 190, 191,
-	192, -2, 197, 194, 0, 0, 93, 109, 0, 0,
-	0, 235, 0, 0, 246, 247, 0, 248, 249, 243,
-	0, 0, 0, 0, 260, 0, 120, 0, 160, 0,
-	132, 0, 130, 77, 96, 0, 0, 87, 0, 0,
-	0, 128, 0, 150, 0, 0, 220, 224, 221, 225,
-	0, 155, 218, 222, 219, 223, 159, 176, 0, 186,
-	0, 193, 189, 0, 113, 115, 116, 0, 226, 286,
-	288, 289, 0, 92, 0, 230, 245, -2, 240, 251,
-	258, 261, 0, 265, 266, 269, 271, 270, 272, 273,
-	0, 119, 0, 0, 166, 172, 163, 165, 167, 169,
-	287, 102, 0, 0, 89, 127, 131, 139, 148, 151,
-	152, 154, 52, 187, 0, 195, 0, 117, 0, 93,
-	0, 262, 0, 0, 276, 281, 121, 0, 0, 132,
-	0, 98, 90, 91, 132, 0, 196, 114, 290, 231,
-	233, 274, 0, 0, 278, 285, 280, 122, 123, 161,
-	168, 0, 134, 0, 0, 138, 140, 142, 143, 145,
-	0, 277, 279, 282, 283, 284, 99, 100, 0, -2,
-	0, 0, 0, 275, 0, 135, 141, 0, 146, 0,
-	144,
+	108, 110, 111, 286, 226, 227, 228, 231, -2, 0,
+	-2, 0, 238, 0, -2, 0, 249, 0, 251, 252,
+	253, 254, 255, -2, 0, 267, 0, 258, 263, 0,
+	0, 160, 132, 170, 129, 0, 0, 97, 101, 103,
+	104, 0, 88, 0, 126, 132, 0, 133, 146, 148,
+	0, 182, 183, 0, 0, 266, 152, 132, 0, 155,
+	156, 0, 0, 0, 173, 174, 0, 176, 177, 5,
+	0, 53, 37, 38, 39, 0, 192, 187, 189, 190,
+	191, -2, 196, 193, 0, 0, 93, 109, 0, 0,
+	0, 234, 0, 0, 245, 246, 0, 247, 248, 242,
+	0, 0, 0, 0, 259, 0, 120, 0, 159, 0,
+	163, 0, 130, 77, 96, 0, 0, 87, 0, 0,
+	0, 128, 0, 149, 0, 0, 219, 223, 220, 224,
+	0, 154, 217, 221, 218, 222, 158, 175, 0, 185,
+	0, 192, 188, 0, 113, 115, 116, 0, 225, 285,
+	287, 288, 0, 92, 0, 229, 244, -2, 239, 250,
+	257, 260, 0, 264, 265, 268, 270, 269, 271, 272,
+	0, 119, 0, 0, 132, 171, 131, 132, 166, 168,
+	286, 102, 0, 0, 89, 127, 132, 147, 150, 151,
+	153, 52, 186, 0, 194, 0, 117, 0, 93, 0,
+	261, 0, 0, 275, 280, 121, 0, 0, 161, 0,
+	164, 0, 98, 90, 91, 134, 0, 0, 195, 114,
+	289, 230, 232, 273, 0, 0, 277, 284, 279, 122,
+	123, 132, 167, 0, -2, 132, 139, 141, 142, 144,
+	0, 0, 276, 278, 281, 282, 283, 162, 99, 100,
+	135, 0, 0, 0, 136, 274, 0, 140, 0, 145,
+	0, 143,
 }
 
 var yyTok1 = [...]int8{
@@ -1061,1181 +1061,1175 @@ yydefault:
 
 	case 1:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line asn1.y:343
+//line asn1.y:341
 		{
 			yylex.(*MyLexer).result = &ModuleDefinition{ModuleIdentifier: yyDollar[1].ModuleIdentifier, TagDefault: yyDollar[3].TagDefault, ExtensibilityImplied: yyDollar[4].ExtensionDefault, ModuleBody: yyDollar[7].ModuleBody}
 		}
 	case 2:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:346
+//line asn1.y:344
 		{
 			yyVAL.TypeReference = TypeReference(yyDollar[1].name)
 		}
 	case 4:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:351
+//line asn1.y:349
 		{
 			yyVAL.ValueReference = ValueReference(yyDollar[1].name)
 		}
 	case 7:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:362
+//line asn1.y:360
 		{
 			yyVAL.ModuleIdentifier = ModuleIdentifier{Reference: yyDollar[1].name, DefinitiveIdentifier: yyDollar[2].DefinitiveIdentifier}
 		}
 	case 8:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:365
+//line asn1.y:363
 		{
 			yyVAL.DefinitiveIdentifier = DefinitiveIdentifier(yyDollar[2].DefinitiveObjIdComponentList)
 		}
 	case 9:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:366
+//line asn1.y:364
 		{
 			yyVAL.DefinitiveIdentifier = DefinitiveIdentifier(make([]DefinitiveObjIdComponent, 0))
 		}
 	case 10:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:369
+//line asn1.y:367
 		{
 			yyVAL.DefinitiveObjIdComponentList = append(make([]DefinitiveObjIdComponent, 0), yyDollar[1].DefinitiveObjIdComponent)
 		}
 	case 11:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:370
+//line asn1.y:368
 		{
 			yyVAL.DefinitiveObjIdComponentList = append(append(make([]DefinitiveObjIdComponent, 0), yyDollar[1].DefinitiveObjIdComponent), yyDollar[2].DefinitiveObjIdComponentList...)
 		}
 	case 12:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:373
+//line asn1.y:371
 		{
 			yyVAL.DefinitiveObjIdComponent = DefinitiveObjIdComponent{Name: yyDollar[1].name}
 		}
 	case 13:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:374
+//line asn1.y:372
 		{
 			yyVAL.DefinitiveObjIdComponent = DefinitiveObjIdComponent{Id: yyDollar[1].Number.IntValue()}
 		}
 	case 14:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:375
+//line asn1.y:373
 		{
 			yyVAL.DefinitiveObjIdComponent = yyDollar[1].DefinitiveObjIdComponent
 		}
 	case 15:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:378
+//line asn1.y:376
 		{
 			yyVAL.Number = yyDollar[1].Number
 		}
 	case 16:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:382
+//line asn1.y:380
 		{
 			yyVAL.DefinitiveObjIdComponent = DefinitiveObjIdComponent{Name: yyDollar[1].name, Id: yyDollar[3].Number.IntValue()}
 		}
 	case 17:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:385
+//line asn1.y:383
 		{
 			yyVAL.TagDefault = TAGS_EXPLICIT
 		}
 	case 18:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:386
+//line asn1.y:384
 		{
 			yyVAL.TagDefault = TAGS_IMPLICIT
 		}
 	case 19:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:387
+//line asn1.y:385
 		{
 			yyVAL.TagDefault = TAGS_AUTOMATIC
 		}
 	case 20:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:388
+//line asn1.y:386
 		{
 			yyVAL.TagDefault = TAGS_EXPLICIT
 		}
 	case 21:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:391
+//line asn1.y:389
 		{
 			yyVAL.ExtensionDefault = true
 		}
 	case 22:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:392
+//line asn1.y:390
 		{
 			yyVAL.ExtensionDefault = false
 		}
 	case 23:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:395
+//line asn1.y:393
 		{
 			yyVAL.ModuleBody = ModuleBody{Imports: yyDollar[2].Imports, AssignmentList: yyDollar[3].AssignmentList}
 		}
 	case 24:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:396
+//line asn1.y:394
 		{
 			yyVAL.ModuleBody = ModuleBody{}
 		}
 	case 30:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:409
+//line asn1.y:407
 		{
 			yyVAL.Imports = yyDollar[2].Imports
 		}
 	case 31:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:410
+//line asn1.y:408
 		{
 			yyVAL.Imports = make([]SymbolsFromModule, 0)
 		}
 	case 32:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:413
+//line asn1.y:411
 		{
 			yyVAL.Imports = yyDollar[1].Imports
 		}
 	case 33:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:414
+//line asn1.y:412
 		{
 			yyVAL.Imports = make([]SymbolsFromModule, 0)
 		}
 	case 34:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:417
+//line asn1.y:415
 		{
 			yyVAL.Imports = append(make([]SymbolsFromModule, 0), yyDollar[1].SymbolsFromModule)
 		}
 	case 35:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:418
+//line asn1.y:416
 		{
 			yyVAL.Imports = append(yyDollar[1].Imports, yyDollar[2].SymbolsFromModule)
 		}
 	case 36:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:421
+//line asn1.y:419
 		{
 			yyVAL.SymbolsFromModule = SymbolsFromModule{yyDollar[1].SymbolList, yyDollar[3].GlobalModuleReference}
 		}
 	case 37:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:424
+//line asn1.y:422
 		{
 			yyVAL.GlobalModuleReference = GlobalModuleReference{yyDollar[1].name, yyDollar[2].Value}
 		}
 	case 38:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:427
+//line asn1.y:425
 		{
 			yyVAL.Value = yyDollar[1].ObjectIdentifierValue
 		}
 	case 39:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:428
+//line asn1.y:426
 		{
 			yyVAL.Value = yyDollar[1].DefinedValue
 		}
 	case 40:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:429
+//line asn1.y:427
 		{
 			yyVAL.Value = nil
 		}
 	case 41:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:432
+//line asn1.y:430
 		{
 			yyVAL.SymbolList = append(make([]Symbol, 0), yyDollar[1].Symbol)
 		}
 	case 42:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:433
+//line asn1.y:431
 		{
 			yyVAL.SymbolList = append(yyDollar[1].SymbolList, yyDollar[3].Symbol)
 		}
 	case 44:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:440
+//line asn1.y:438
 		{
 			yyVAL.Symbol = TypeReference(yyDollar[1].TypeReference)
 		}
 	case 45:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:441
+//line asn1.y:439
 		{
 			yyVAL.Symbol = ModuleReference(yyDollar[1].name)
 		}
 	case 46:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:442
+//line asn1.y:440
 		{
 			yyVAL.Symbol = ValueReference(yyDollar[1].ValueReference)
 		}
 	case 47:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:448
+//line asn1.y:446
 		{
 			yyVAL.AssignmentList = AssignmentList{yyDollar[1].Assignment}
 		}
 	case 48:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:449
+//line asn1.y:447
 		{
 			yyVAL.AssignmentList = append(yyDollar[1].AssignmentList, yyDollar[2].Assignment)
 		}
 	case 51:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:465
+//line asn1.y:463
 		{
 			yyVAL.Type = yyDollar[1].TypeReference
 		}
 	case 52:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:473
+//line asn1.y:471
 		{
 			yyVAL.DefinedValue = DefinedValue{ModuleReference(yyDollar[1].name), yyDollar[3].ValueReference}
 		}
 	case 53:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:474
+//line asn1.y:472
 		{
 			yyVAL.DefinedValue = DefinedValue{ValueName: yyDollar[1].ValueReference}
 		}
 	case 54:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:489
+//line asn1.y:487
 		{
 			yyVAL.Assignment = TypeAssignment{yyDollar[1].TypeReference, yyDollar[3].Type}
 		}
 	case 55:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:492
+//line asn1.y:490
 		{
 			yyVAL.Assignment = ValueAssignment{yyDollar[1].ValueReference, yyDollar[2].Type, yyDollar[4].Value}
 		}
 	case 77:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:539
+//line asn1.y:537
 		{
 			yyVAL.NamedType = NamedType{Identifier: Identifier(yyDollar[1].name), Type: yyDollar[2].Type}
 		}
 	case 81:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:562
+//line asn1.y:560
 		{
 			yyVAL.Value = yyDollar[1].ObjectIdentifierValue
 		}
 	case 83:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:575
+//line asn1.y:573
 		{
 			yyVAL.Type = BooleanType{}
 		}
 	case 84:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:578
+//line asn1.y:576
 		{
 			yyVAL.Value = Boolean(true)
 		}
 	case 85:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:579
+//line asn1.y:577
 		{
 			yyVAL.Value = Boolean(false)
 		}
 	case 86:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:584
+//line asn1.y:582
 		{
 			yyVAL.Type = IntegerType{}
 		}
 	case 87:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:585
+//line asn1.y:583
 		{
 			yyVAL.Type = IntegerType{yyDollar[3].NamedNumberList}
 		}
 	case 88:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:588
+//line asn1.y:586
 		{
 			yyVAL.NamedNumberList = []NamedNumber{yyDollar[1].NamedNumber}
 		}
 	case 89:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:589
+//line asn1.y:587
 		{
 			yyVAL.NamedNumberList = append(yyDollar[1].NamedNumberList, yyDollar[3].NamedNumber)
 		}
 	case 90:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:592
+//line asn1.y:590
 		{
 			yyVAL.NamedNumber = NamedNumber{Identifier(yyDollar[1].name), yyDollar[3].Number}
 		}
 	case 91:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:593
+//line asn1.y:591
 		{
 			yyVAL.NamedNumber = NamedNumber{Identifier(yyDollar[1].name), yyDollar[3].DefinedValue}
 		}
 	case 92:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:596
+//line asn1.y:594
 		{
 			yyVAL.Number = yyDollar[1].Number
 		}
 	case 93:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:597
+//line asn1.y:595
 		{
 			yyVAL.Number = yyDollar[2].Number.UnaryMinus()
 		}
 	case 94:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:602
+//line asn1.y:600
 		{
 			yyVAL.Value = yyDollar[1].Number
 		}
 	case 95:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:603
+//line asn1.y:601
 		{
 			yyVAL.Value = IdentifiedIntegerValue{Name: yyDollar[1].name}
 		}
 	case 96:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:608
+//line asn1.y:606
 		{
 			yyVAL.Type = yyDollar[3].EnumeratedType
 		}
 	case 97:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:612
+//line asn1.y:610
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration}
 		}
 	case 98:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:613
+//line asn1.y:611
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration}
 		}
 	case 99:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line asn1.y:614
+//line asn1.y:612
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration, AdditionalEnumeration: yyDollar[6].Enumeration}
 		}
 	case 101:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:620
+//line asn1.y:618
 		{
 			yyVAL.Enumeration = []EnumerationItem{yyDollar[1].EnumerationItem}
 		}
 	case 102:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:621
+//line asn1.y:619
 		{
 			yyVAL.Enumeration = append(yyDollar[1].Enumeration, yyDollar[3].EnumerationItem)
 		}
 	case 103:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:624
+//line asn1.y:622
 		{
 			yyVAL.EnumerationItem = yyDollar[1].NamedNumber
 		}
 	case 104:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:625
+//line asn1.y:623
 		{
 			yyVAL.EnumerationItem = Identifier(yyDollar[1].name)
 		}
 	case 105:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:630
+//line asn1.y:628
 		{
 			yyVAL.Type = RealType{}
 		}
 	case 108:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:639
+//line asn1.y:637
 		{
 			yyVAL.Value = yyDollar[1].Real
 		}
 	case 109:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:640
+//line asn1.y:638
 		{
 			yyVAL.Value = yyDollar[2].Real.UnaryMinus()
 		}
 	case 110:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:644
+//line asn1.y:642
 		{
 			yyVAL.Value = Real(math.Inf(1))
 		}
 	case 111:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:645
+//line asn1.y:643
 		{
 			yyVAL.Value = Real(math.Inf(-1))
 		}
 	case 112:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:649
+//line asn1.y:647
 		{
 			yyVAL.Real = parseRealNumber(yyDollar[1].Number, 0, 0)
 		}
 	case 113:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:650
+//line asn1.y:648
 		{
 			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, yyDollar[3].numberRepr, 0)
 		}
 	case 114:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:651
+//line asn1.y:649
 		{
 			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, yyDollar[3].numberRepr, yyDollar[5].Number)
 		}
 	case 115:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:652
+//line asn1.y:650
 		{
 			yyVAL.Real = parseRealNumber(yyDollar[1].Number, 0, yyDollar[3].Number)
 		}
 	case 117:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:656
+//line asn1.y:654
 		{
 			yyVAL.Number = Number(-int(yyDollar[2].Number))
 		}
 	case 118:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:661
+//line asn1.y:659
 		{
 			yyVAL.Type = BitStringType{}
 		}
 	case 119:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:662
+//line asn1.y:660
 		{
 			yyVAL.Type = BitStringType{NamedBits: yyDollar[4].NamedBitList}
 		}
 	case 120:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:665
+//line asn1.y:663
 		{
 			yyVAL.NamedBitList = append(make([]NamedBit, 0), yyDollar[1].NamedBit)
 		}
 	case 121:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:666
+//line asn1.y:664
 		{
 			yyVAL.NamedBitList = append(yyDollar[1].NamedBitList, yyDollar[3].NamedBit)
 		}
 	case 122:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:669
+//line asn1.y:667
 		{
 			yyVAL.NamedBit = NamedBit{Name: Identifier(yyDollar[1].name), Index: yyDollar[3].Number}
 		}
 	case 123:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:670
+//line asn1.y:668
 		{
 			yyVAL.NamedBit = NamedBit{Name: Identifier(yyDollar[1].name), Index: yyDollar[3].DefinedValue}
 		}
 	case 124:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:675
+//line asn1.y:673
 		{
 			yyVAL.Type = OctetStringType{}
 		}
 	case 125:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:680
+//line asn1.y:678
 		{
 			yyVAL.Type = NullType{}
 		}
 	case 126:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:685
+//line asn1.y:683
 		{
 			yyVAL.Type = SequenceType{}
 		}
 	case 127:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:686
+//line asn1.y:684
 		{
 			yyVAL.Type = SequenceType{}
 		}
 	case 128:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:687
+//line asn1.y:685
 		{
 			yyVAL.Type = SequenceType{Components: append(yyDollar[3].ComponentTypeLists.Components, yyDollar[3].ComponentTypeLists.TrailingComponents...), ExtensionAdditions: yyDollar[3].ComponentTypeLists.ExtensionAdditions}
 		}
 	case 133:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:699
+//line asn1.y:697
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList}
 		}
 	case 134:
-		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:700
+		yyDollar = yyS[yypt-4 : yypt+1]
+//line asn1.y:698
 		{
-			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList, ExtensionAdditions: yyDollar[4].ExtensionAdditions}
+			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList}
 		}
 	case 135:
-		yyDollar = yyS[yypt-7 : yypt+1]
-//line asn1.y:701
+		yyDollar = yyS[yypt-6 : yypt+1]
+//line asn1.y:699
 		{
-			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList, ExtensionAdditions: yyDollar[4].ExtensionAdditions, TrailingComponents: yyDollar[7].ComponentTypeList}
+			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList, ExtensionAdditions: yyDollar[5].ExtensionAdditions}
 		}
-	case 138:
-		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:713
+	case 136:
+		yyDollar = yyS[yypt-6 : yypt+1]
+//line asn1.y:700
 		{
-			yyVAL.ExtensionAdditions = yyDollar[2].ExtensionAdditions
+			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList, TrailingComponents: yyDollar[6].ComponentTypeList}
 		}
 	case 139:
-		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:714
-		{
-			yyVAL.ExtensionAdditions = nil
-		}
-	case 140:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:717
+//line asn1.y:713
 		{
 			yyVAL.ExtensionAdditions = append([]ExtensionAddition{}, yyDollar[1].ExtensionAdditions...)
 		}
-	case 141:
+	case 140:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:718
+//line asn1.y:714
 		{
 			yyVAL.ExtensionAdditions = append(yyDollar[1].ExtensionAdditions, yyDollar[3].ExtensionAdditions...)
 		}
-	case 142:
+	case 141:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:721
+//line asn1.y:717
 		{
 			yyVAL.ExtensionAdditions = []ExtensionAddition{yyDollar[1].ComponentType}
 		}
-	case 143:
+	case 142:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:722
+//line asn1.y:718
 		{
 			yyVAL.ExtensionAdditions = nil
 		}
-	case 147:
+	case 146:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:731
+//line asn1.y:727
 		{
 			yyVAL.ComponentTypeList = append(make(ComponentTypeList, 0), yyDollar[1].ComponentType)
 		}
-	case 148:
+	case 147:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:732
+//line asn1.y:728
 		{
 			yyVAL.ComponentTypeList = append(yyDollar[1].ComponentTypeList, yyDollar[3].ComponentType)
 		}
-	case 149:
+	case 148:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:735
+//line asn1.y:731
 		{
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType}
 		}
-	case 150:
+	case 149:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:736
+//line asn1.y:732
 		{
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, IsOptional: true}
 		}
-	case 151:
+	case 150:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:737
+//line asn1.y:733
 		{
 			cpy := yyDollar[3].Value
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, Default: &cpy}
 		}
-	case 152:
+	case 151:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:738
+//line asn1.y:734
 		{
 			yyVAL.ComponentType = ComponentsOfComponentType{Type: yyDollar[3].Type}
 		}
-	case 153:
+	case 152:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:743
+//line asn1.y:739
 		{
 			yyVAL.Type = SetType{}
 		}
-	case 154:
+	case 153:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:744
+//line asn1.y:740
 		{
 			yyVAL.Type = SetType{}
 		}
-	case 155:
+	case 154:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:745
+//line asn1.y:741
 		{
 			yyVAL.Type = SetType{Components: append(yyDollar[3].ComponentTypeLists.Components, yyDollar[3].ComponentTypeLists.TrailingComponents...), ExtensionAdditions: yyDollar[3].ComponentTypeLists.ExtensionAdditions}
 		}
-	case 156:
+	case 155:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:750
+//line asn1.y:746
 		{
 			yyVAL.Type = SetOfType{yyDollar[3].Type}
 		}
-	case 157:
+	case 156:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:751
+//line asn1.y:747
 		{
 			yyVAL.Type = SetOfType{yyDollar[3].NamedType}
 		}
-	case 158:
+	case 157:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:755
+//line asn1.y:751
 		{
 			yyVAL.Type = AnyType{}
 		}
-	case 159:
+	case 158:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:756
+//line asn1.y:752
 		{
 			yyVAL.Type = AnyType{Identifier(yyDollar[4].name)}
 		}
-	case 160:
+	case 159:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:761
+//line asn1.y:757
 		{
 			yyVAL.Type = yyDollar[3].ChoiceType
 		}
+	case 160:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line asn1.y:760
+		{
+			yyVAL.ChoiceType = ChoiceType{AlternativeTypeList: yyDollar[1].AlternativeTypeList}
+		}
 	case 161:
-		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:764
+		yyDollar = yyS[yypt-4 : yypt+1]
+//line asn1.y:761
 		{
-			yyVAL.ChoiceType = ChoiceType{yyDollar[1].AlternativeTypeList, yyDollar[4].ExtensionAdditionAlternativesList}
+			yyVAL.ChoiceType = ChoiceType{yyDollar[1].AlternativeTypeList, make([]ChoiceExtension, 0)}
 		}
 	case 162:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:765
+		yyDollar = yyS[yypt-6 : yypt+1]
+//line asn1.y:762
 		{
-			yyVAL.ChoiceType = ChoiceType{AlternativeTypeList: yyDollar[1].AlternativeTypeList}
+			yyVAL.ChoiceType = ChoiceType{yyDollar[1].AlternativeTypeList, yyDollar[5].ExtensionAdditionAlternativesList}
 		}
 	case 163:
-		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:766
-		{
-			yyVAL.ChoiceType = ChoiceType{nil, yyDollar[2].ExtensionAdditionAlternativesList}
-		}
-	case 165:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:773
+//line asn1.y:763
 		{
-			yyVAL.ExtensionAdditionAlternativesList = yyDollar[2].ExtensionAdditionAlternativesList
+			yyVAL.ChoiceType = ChoiceType{nil, make([]ChoiceExtension, 0)}
 		}
-	case 166:
-		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:774
+	case 164:
+		yyDollar = yyS[yypt-4 : yypt+1]
+//line asn1.y:764
 		{
-			yyVAL.ExtensionAdditionAlternativesList = make([]ChoiceExtension, 0)
+			yyVAL.ChoiceType = ChoiceType{nil, yyDollar[3].ExtensionAdditionAlternativesList}
 		}
-	case 167:
+	case 166:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:777
+//line asn1.y:771
 		{
 			yyVAL.ExtensionAdditionAlternativesList = append(make([]ChoiceExtension, 0), yyDollar[1].ExtensionAdditionAlternative)
 		}
-	case 168:
+	case 167:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:778
+//line asn1.y:772
 		{
 			yyVAL.ExtensionAdditionAlternativesList = append(yyDollar[1].ExtensionAdditionAlternativesList, yyDollar[3].ExtensionAdditionAlternative)
 		}
-	case 169:
+	case 168:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:782
+//line asn1.y:776
 		{
 			yyVAL.ExtensionAdditionAlternative = yyDollar[1].NamedType
 		}
-	case 171:
+	case 170:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:789
+//line asn1.y:783
 		{
 			yyVAL.AlternativeTypeList = append(make([]NamedType, 0), yyDollar[1].NamedType)
 		}
-	case 172:
+	case 171:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:790
+//line asn1.y:784
 		{
 			yyVAL.AlternativeTypeList = append(yyDollar[1].AlternativeTypeList, yyDollar[3].NamedType)
 		}
-	case 173:
+	case 172:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:795
+//line asn1.y:789
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[2].Type}
 		}
-	case 174:
+	case 173:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:796
+//line asn1.y:790
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[3].Type, TagType: TAGS_IMPLICIT, HasTagType: true}
 		}
-	case 175:
+	case 174:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:797
+//line asn1.y:791
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[3].Type, TagType: TAGS_EXPLICIT, HasTagType: true}
 		}
-	case 176:
+	case 175:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:800
+//line asn1.y:794
 		{
 			yyVAL.Tag = Tag{Class: yyDollar[2].Class, ClassNumber: yyDollar[3].Value}
 		}
-	case 177:
+	case 176:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:803
+//line asn1.y:797
 		{
 			yyVAL.Value = yyDollar[1].Number
 		}
-	case 178:
+	case 177:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:804
+//line asn1.y:798
 		{
 			yyVAL.Value = yyDollar[1].DefinedValue
 		}
-	case 179:
+	case 178:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:807
+//line asn1.y:801
 		{
 			yyVAL.Class = CLASS_UNIVERSAL
 		}
-	case 180:
+	case 179:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:808
+//line asn1.y:802
 		{
 			yyVAL.Class = CLASS_APPLICATION
 		}
-	case 181:
+	case 180:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:809
+//line asn1.y:803
 		{
 			yyVAL.Class = CLASS_PRIVATE
 		}
-	case 182:
+	case 181:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:810
+//line asn1.y:804
 		{
 			yyVAL.Class = CLASS_CONTEXT_SPECIFIC
 		}
-	case 183:
+	case 182:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:815
+//line asn1.y:809
 		{
 			yyVAL.Type = SequenceOfType{yyDollar[3].Type}
 		}
-	case 184:
+	case 183:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:816
+//line asn1.y:810
 		{
 			yyVAL.Type = SequenceOfType{yyDollar[3].NamedType}
 		}
-	case 185:
+	case 184:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:821
+//line asn1.y:815
 		{
 			yyVAL.Type = ObjectIdentifierType{}
 		}
-	case 186:
+	case 185:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:826
+//line asn1.y:820
 		{
 			yyVAL.ObjectIdentifierValue = yyDollar[2].ObjectIdentifierValue
 		}
-	case 187:
+	case 186:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:827
+//line asn1.y:821
 		{
 			cpy := yyDollar[2].DefinedValue
 			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{ObjectIdElement{Reference: &cpy}}, yyDollar[3].ObjectIdentifierValue...)
 		}
-	case 188:
+	case 187:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:830
+//line asn1.y:824
 		{
 			yyVAL.ObjectIdentifierValue = ObjectIdentifierValue{yyDollar[1].ObjectIdElement}
 		}
-	case 189:
+	case 188:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:831
+//line asn1.y:825
 		{
 			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{yyDollar[1].ObjectIdElement}, yyDollar[2].ObjectIdentifierValue...)
 		}
-	case 190:
+	case 189:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:834
+//line asn1.y:828
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{Name: yyDollar[1].name}
 		}
-	case 193:
+	case 192:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:837
+//line asn1.y:831
 		{
 			cpy := yyDollar[1].DefinedValue
 			yyVAL.ObjectIdElement = ObjectIdElement{Reference: &cpy}
 		}
-	case 194:
+	case 193:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:840
+//line asn1.y:834
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{ID: yyDollar[1].Number.IntValue()}
 		}
-	case 195:
+	case 194:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:841
+//line asn1.y:835
 		{
 			cpy := yyDollar[1].DefinedValue
 			yyVAL.ObjectIdElement = ObjectIdElement{Reference: &cpy}
 		}
-	case 196:
+	case 195:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:845
+//line asn1.y:839
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{Name: yyDollar[1].name, ID: yyDollar[3].ObjectIdElement.ID, Reference: yyDollar[3].ObjectIdElement.Reference}
 		}
-	case 200:
+	case 199:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:857
+//line asn1.y:851
 		{
 			yyVAL.Type = RestrictedStringType{LexType: BMPString}
 		}
-	case 201:
+	case 200:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:858
+//line asn1.y:852
 		{
 			yyVAL.Type = RestrictedStringType{LexType: GeneralString}
 		}
-	case 202:
+	case 201:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:859
+//line asn1.y:853
 		{
 			yyVAL.Type = RestrictedStringType{LexType: GraphicString}
 		}
-	case 203:
+	case 202:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:860
+//line asn1.y:854
 		{
 			yyVAL.Type = RestrictedStringType{LexType: IA5String}
 		}
-	case 204:
+	case 203:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:861
+//line asn1.y:855
 		{
 			yyVAL.Type = RestrictedStringType{LexType: ISO646String}
 		}
-	case 205:
+	case 204:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:862
+//line asn1.y:856
 		{
 			yyVAL.Type = RestrictedStringType{LexType: NumericString}
 		}
-	case 206:
+	case 205:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:863
+//line asn1.y:857
 		{
 			yyVAL.Type = RestrictedStringType{LexType: PrintableString}
 		}
-	case 207:
+	case 206:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:864
+//line asn1.y:858
 		{
 			yyVAL.Type = RestrictedStringType{LexType: TeletexString}
 		}
-	case 208:
+	case 207:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:865
+//line asn1.y:859
 		{
 			yyVAL.Type = RestrictedStringType{LexType: T61String}
 		}
-	case 209:
+	case 208:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:866
+//line asn1.y:860
 		{
 			yyVAL.Type = RestrictedStringType{LexType: UniversalString}
 		}
-	case 210:
+	case 209:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:867
+//line asn1.y:861
 		{
 			yyVAL.Type = RestrictedStringType{LexType: UTF8String}
 		}
-	case 211:
+	case 210:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:868
+//line asn1.y:862
 		{
 			yyVAL.Type = RestrictedStringType{LexType: VideotexString}
 		}
-	case 212:
+	case 211:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:869
+//line asn1.y:863
 		{
 			yyVAL.Type = RestrictedStringType{LexType: VisibleString}
 		}
-	case 213:
+	case 212:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:874
+//line asn1.y:868
 		{
 			yyVAL.Type = CharacterStringType{}
 		}
-	case 214:
+	case 213:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:879
+//line asn1.y:873
 		{
 			yyVAL.Type = TypeReference("GeneralizedTime")
 		}
-	case 215:
+	case 214:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:880
+//line asn1.y:874
 		{
 			yyVAL.Type = TypeReference("UTCTime")
 		}
-	case 216:
+	case 215:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:885
+//line asn1.y:879
 		{
 			yyVAL.Type = ConstraintedType{yyDollar[1].Type, yyDollar[2].Constraint}
 		}
-	case 218:
+	case 217:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:891
+//line asn1.y:885
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].Type}, yyDollar[2].Constraint}
 		}
-	case 219:
+	case 218:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:892
+//line asn1.y:886
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].Type}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
-	case 220:
+	case 219:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:893
+//line asn1.y:887
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].Type}, yyDollar[2].Constraint}
 		}
-	case 221:
+	case 220:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:894
+//line asn1.y:888
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].Type}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
-	case 222:
+	case 221:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:895
+//line asn1.y:889
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].NamedType}, yyDollar[2].Constraint}
 		}
-	case 223:
+	case 222:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:896
+//line asn1.y:890
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].NamedType}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
-	case 224:
+	case 223:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:897
+//line asn1.y:891
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].NamedType}, yyDollar[2].Constraint}
 		}
-	case 225:
+	case 224:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:898
+//line asn1.y:892
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].NamedType}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
-	case 226:
+	case 225:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:903
+//line asn1.y:897
 		{
 			yyVAL.Constraint = Constraint{ConstraintSpec: yyDollar[2].ConstraintSpec}
 		}
-	case 227:
+	case 226:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:906
+//line asn1.y:900
 		{
 			yyVAL.ConstraintSpec = yyDollar[1].SubtypeConstraint
 		}
-	case 230:
+	case 229:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:916
+//line asn1.y:910
 		{
 			yyVAL.SubtypeConstraint = yyDollar[1].SubtypeConstraint
 		}
-	case 231:
+	case 230:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:917
+//line asn1.y:911
 		{
 			yyVAL.SubtypeConstraint = append(yyDollar[1].SubtypeConstraint, yyDollar[5].ElementSetSpec)
 		}
-	case 232:
+	case 231:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:920
+//line asn1.y:914
 		{
 			yyVAL.SubtypeConstraint = SubtypeConstraint{yyDollar[1].ElementSetSpec}
 		}
-	case 234:
+	case 233:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:926
+//line asn1.y:920
 		{
 			yyVAL.ElementSetSpec = yyDollar[1].Unions
 		}
-	case 235:
+	case 234:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:927
+//line asn1.y:921
 		{
 			yyVAL.ElementSetSpec = yyDollar[2].Exclusions
 		}
-	case 236:
+	case 235:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:930
+//line asn1.y:924
 		{
 			yyVAL.Unions = Unions{yyDollar[1].Intersections}
 		}
-	case 237:
+	case 236:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:931
+//line asn1.y:925
 		{
 			yyVAL.Unions = append(yyDollar[1].Unions, yyDollar[3].Intersections)
 		}
-	case 239:
+	case 238:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:937
+//line asn1.y:931
 		{
 			yyVAL.Intersections = Intersections{yyDollar[1].IntersectionElements}
 		}
-	case 240:
+	case 239:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:938
+//line asn1.y:932
 		{
 			yyVAL.Intersections = append(yyDollar[1].Intersections, yyDollar[3].IntersectionElements)
 		}
-	case 242:
+	case 241:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:944
+//line asn1.y:938
 		{
 			yyVAL.IntersectionElements = IntersectionElements{Elements: yyDollar[1].Elements}
 		}
-	case 243:
+	case 242:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:945
+//line asn1.y:939
 		{
 			yyVAL.IntersectionElements = IntersectionElements{Elements: yyDollar[1].Elements, Exclusions: yyDollar[2].Exclusions}
 		}
-	case 245:
+	case 244:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:951
+//line asn1.y:945
 		{
 			yyVAL.Exclusions = Exclusions{yyDollar[2].Elements}
 		}
-	case 250:
+	case 249:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:960
+//line asn1.y:954
 		{
 			yyVAL.Elements = yyDollar[1].Elements
 		}
-	case 251:
+	case 250:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:962
+//line asn1.y:956
 		{
 			yyVAL.Elements = yyDollar[2].ElementSetSpec
 		}
-	case 257:
+	case 256:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:977
+//line asn1.y:971
 		{
 			yyVAL.Elements = SingleValue{yyDollar[1].Value}
 		}
-	case 258:
+	case 257:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:982
+//line asn1.y:976
 		{
 			yyVAL.Elements = ValueRange{yyDollar[1].RangeEndpoint, yyDollar[3].RangeEndpoint}
 		}
-	case 259:
+	case 258:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:985
+//line asn1.y:979
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value}
 		}
-	case 260:
+	case 259:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:986
+//line asn1.y:980
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value, IsOpen: true}
 		}
-	case 261:
+	case 260:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:989
+//line asn1.y:983
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value}
 		}
-	case 262:
+	case 261:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:990
+//line asn1.y:984
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[2].Value, IsOpen: true}
 		}
-	case 264:
+	case 263:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:994
+//line asn1.y:988
 		{
 			yyVAL.Value = nil
 		}
-	case 266:
+	case 265:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:998
+//line asn1.y:992
 		{
 			yyVAL.Value = nil
 		}
-	case 267:
+	case 266:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:1003
+//line asn1.y:997
 		{
 			yyVAL.Elements = SizeConstraint{yyDollar[2].Constraint}
 		}
-	case 268:
+	case 267:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:1008
+//line asn1.y:1002
 		{
 			yyVAL.Elements = TypeConstraint{yyDollar[1].Type}
 		}
-	case 269:
+	case 268:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:1013
+//line asn1.y:1007
 		{
 			yyVAL.Elements = InnerTypeConstraint{}
 		}
-	case 270:
+	case 269:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:1014
+//line asn1.y:1008
 		{
 			yyVAL.Elements = InnerTypeConstraint{}
 		}
-- 
2.43.0


From 8933d5e801923d7637b49919dbf190608f5e7fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 18/22] fix: keep components of extension addition groups

---
 asn1.y |   7 +-
 y.go   | 269 +++++++++++++++++++++++++++++----------------------------
 2 files changed, 144 insertions(+), 132 deletions(-)

diff --git a/asn1.y b/asn1.y
index 01cc6c1..ec23f1e 100644
--- a/asn1.y
+++ b/asn1.y
@@ -309,7 +309,7 @@ import (
 %type <ExtensionAdditionAlternative> ExtensionAdditionAlternative
 %type <ExtensionAdditionAlternativesList> ExtensionAdditionAlternativesList
 %type <ExtensionAdditions> ExtensionAdditionList
-%type <ExtensionAdditions> ExtensionAddition
+%type <ExtensionAdditions> ExtensionAddition ExtensionAdditionGroup
 %type <NamedNumber> NamedNumber
 %type <NamedNumberList> NamedNumberList
 %type <EnumeratedType> Enumerations
@@ -715,9 +715,12 @@ ExtensionAdditionList : ExtensionAddition  { $$ = append([]ExtensionAddition{},
 ;
 
 ExtensionAddition : ComponentType  { $$ = []ExtensionAddition{$1} }
-                  | ExtensionAdditionGroup  { $$ = nil }
+                  | ExtensionAdditionGroup  { $$ = $1 }
+;
 
+// Version brackets are not preserved in AST, as they do not affect encoding of the components.
 ExtensionAdditionGroup : LEFT_VERSION_BRACKETS VersionNumber ComponentTypeList RIGHT_VERSION_BRACKETS
+                         { $$ = make([]ExtensionAddition, 0); for _, component := range $3 { $$ = append($$, component) } }
 ;
 
 VersionNumber : /*empty*/
diff --git a/y.go b/y.go
index 547b51e..85706ba 100644
--- a/y.go
+++ b/y.go
@@ -335,7 +335,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line asn1.y:1064
+//line asn1.y:1067
 
 //line yacctab:1
 var yyExca = [...]int16{
@@ -420,9 +420,9 @@ var yyAct = [...]int16{
 	164, 4, 251, 253, 47, 48, 55, 48, 19, 48,
 	4, 389, 319, 392, 413, 397, 390, 398, 407, 401,
 	396, 349, 402, 349, 373, 374, 374, 339, 338, 337,
-	335, 266, 411, 412, 210, 263, 417, 422, 408, 419,
-	420, 55, 19, 168, 424, 387, 39, 34, 1, 418,
-	206, 211, 405, 407, 201, 200, 428, 210, 427, 351,
+	335, 266, 411, 412, 210, 263, 417, 422, 387, 419,
+	420, 55, 19, 168, 424, 39, 34, 1, 418, 206,
+	211, 408, 405, 407, 201, 200, 428, 210, 427, 351,
 	72, 165, 357, 153, 242, 43, 57, 187, 56, 120,
 	37, 169, 275, 69, 77, 86, 149, 236, 102, 84,
 	82, 81, 80, 79, 94, 67, 85, 91, 90, 99,
@@ -535,27 +535,27 @@ var yyPgo = [...]int16{
 	451, 450, 1, 3, 450, 31, 449, 448, 447, 446,
 	445, 444, 443, 442, 17, 440, 438, 436, 149, 176,
 	116, 435, 434, 433, 430, 425, 424, 424, 10, 9,
-	422, 6, 25, 421, 420, 5, 419, 2, 418, 417,
-	416, 16, 24, 4, 415, 408, 407, 407, 405, 401,
+	422, 6, 421, 25, 420, 419, 5, 418, 2, 417,
+	416, 415, 16, 24, 4, 408, 407, 407, 405, 401,
 	400, 399, 398, 397, 7, 394, 390, 385, 384, 382,
 }
 
 var yyR1 = [...]uint8{
-	0, 118, 4, 3, 45, 39, 5, 8, 13, 13,
+	0, 119, 4, 3, 45, 39, 5, 8, 13, 13,
 	11, 11, 9, 9, 9, 10, 12, 7, 7, 7,
-	7, 6, 6, 44, 44, 119, 119, 119, 120, 120,
+	7, 6, 6, 44, 44, 120, 120, 120, 121, 121,
 	95, 95, 96, 96, 97, 97, 98, 103, 102, 102,
 	102, 99, 99, 100, 101, 101, 101, 43, 43, 40,
 	40, 76, 15, 15, 42, 41, 20, 20, 20, 19,
 	19, 19, 19, 19, 19, 19, 19, 19, 19, 19,
 	19, 19, 19, 19, 19, 77, 77, 24, 31, 30,
-	30, 30, 30, 18, 35, 35, 17, 17, 113, 113,
-	112, 112, 38, 38, 32, 32, 22, 114, 114, 114,
-	116, 115, 115, 117, 117, 33, 34, 34, 36, 36,
+	30, 30, 30, 18, 35, 35, 17, 17, 114, 114,
+	113, 113, 38, 38, 32, 32, 22, 115, 115, 115,
+	117, 116, 116, 118, 118, 33, 34, 34, 36, 36,
 	37, 37, 1, 1, 1, 1, 2, 2, 92, 92,
-	93, 93, 94, 94, 91, 21, 78, 78, 78, 122,
-	122, 123, 123, 85, 85, 85, 85, 84, 124, 110,
-	110, 111, 111, 125, 126, 126, 83, 83, 82, 82,
+	93, 93, 94, 94, 91, 21, 78, 78, 78, 123,
+	123, 124, 124, 85, 85, 85, 85, 84, 125, 110,
+	110, 111, 111, 112, 126, 126, 83, 83, 82, 82,
 	82, 82, 80, 80, 80, 81, 81, 23, 23, 104,
 	105, 105, 105, 105, 105, 107, 109, 109, 108, 127,
 	106, 106, 86, 86, 86, 87, 88, 88, 89, 89,
@@ -569,7 +569,7 @@ var yyR1 = [...]uint8{
 	61, 65, 65, 65, 65, 65, 63, 64, 69, 69,
 	70, 70, 71, 71, 72, 72, 68, 66, 67, 67,
 	130, 131, 131, 132, 133, 134, 134, 135, 136, 137,
-	137, 138, 138, 138, 138, 121, 121, 139, 139, 139,
+	137, 138, 138, 138, 138, 122, 122, 139, 139, 139,
 }
 
 var yyR2 = [...]int8{
@@ -605,10 +605,10 @@ var yyR2 = [...]int8{
 }
 
 var yyChk = [...]int16{
-	-1000, -118, -8, -3, 6, 119, -13, 26, -7, 64,
+	-1000, -119, -8, -3, 6, 119, -13, 26, -7, 64,
 	108, 63, -11, -9, -14, -10, -12, -5, 8, 7,
 	-6, 72, 78, 78, 78, 27, -11, 32, 15, 112,
-	-10, 67, 33, -44, -119, 68, 52, -95, 116, -120,
+	-10, 67, 33, -44, -120, 68, 52, -95, 116, -121,
 	55, -99, -100, -101, -4, -3, -45, 6, 7, -43,
 	-40, -42, -41, -4, -45, 6, -96, -97, -98, -99,
 	42, 42, 30, -40, 15, -20, -19, -77, -46, -92,
@@ -625,29 +625,29 @@ var yyChk = [...]int16{
 	-1, 109, 69, -49, -50, -51, -52, -54, -55, 55,
 	-57, -56, -59, -58, -61, -62, -65, 32, -63, -64,
 	-68, -66, -67, -31, -69, -20, 126, -71, 65, 26,
-	-105, -106, -122, -24, 17, -5, -114, -115, -117, -112,
-	-5, -113, -112, -5, 27, -122, -85, -83, -82, -24,
-	103, -20, -24, 93, 93, -48, 27, -122, -85, -20,
+	-105, -106, -123, -24, 17, -5, -115, -116, -118, -113,
+	-5, -114, -113, -5, 27, -123, -85, -83, -82, -24,
+	103, -20, -24, 93, 93, -48, 27, -123, -85, -20,
 	-24, 93, 93, 83, -20, -20, -88, -39, -15, 8,
 	-3, -45, -102, -29, -15, -28, -15, -27, -14, -25,
-	-26, 7, -5, 8, 31, 25, 8, -1, -121, 45,
+	-26, 7, -5, 8, 31, 25, 8, -1, -122, 45,
 	30, -60, 60, -128, 44, 94, -129, 46, 53, -60,
 	-54, 16, 99, 103, 28, -93, -94, -5, 27, 30,
-	-123, 30, -121, -20, 27, 30, 32, 27, 30, -123,
+	-124, 30, -122, -20, 27, 30, 32, 27, 30, -124,
 	30, 27, 30, 97, 115, 93, -20, -24, -20, -24,
-	-123, 27, -20, -24, -20, -24, -5, 35, 31, 27,
+	-124, 27, -20, -24, -20, -24, -5, 35, 31, 27,
 	-28, -15, -28, 32, 8, -2, 8, 36, 33, -139,
 	-38, -15, -20, 8, 36, 17, -61, -57, -59, 33,
 	-70, -72, 28, -31, 61, -130, -48, -131, -132, -133,
-	26, 27, 30, 32, -122, -24, 17, -109, -108, -24,
-	17, -117, -38, -15, -112, 27, -122, -82, -31, -20,
+	26, 27, 30, 32, -123, -24, 17, -109, -108, -24,
+	17, -118, -38, -15, -113, 27, -123, -82, -31, -20,
 	27, -45, 27, -25, -15, 25, 8, 37, 8, 30,
-	-72, -134, 17, -135, -5, -94, -39, -15, -123, 30,
-	-123, 30, -121, 33, 33, -123, 30, -124, 33, -2,
+	-72, -134, 17, -135, -5, -94, -39, -15, -124, 30,
+	-124, 30, -122, 33, 33, -124, 30, -125, 33, -2,
 	-31, -53, -54, 27, 30, 30, -136, -137, -48, 33,
-	33, -109, -108, 30, 17, -110, -111, -82, -125, 18,
-	30, -134, -134, -138, 113, 47, 97, -123, -116, -115,
-	-123, 30, -126, 8, -83, 27, 30, -111, -83, 37,
+	33, -109, -108, 30, 17, -110, -111, -82, -112, 18,
+	30, -134, -134, -138, 113, 47, 97, -124, -117, -116,
+	-124, 30, -126, 8, -83, 27, 30, -111, -83, 37,
 	30, 19,
 }
 
@@ -1633,603 +1633,612 @@ yydefault:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:718
 		{
-			yyVAL.ExtensionAdditions = nil
+			yyVAL.ExtensionAdditions = yyDollar[1].ExtensionAdditions
+		}
+	case 143:
+		yyDollar = yyS[yypt-4 : yypt+1]
+//line asn1.y:723
+		{
+			yyVAL.ExtensionAdditions = make([]ExtensionAddition, 0)
+			for _, component := range yyDollar[3].ComponentTypeList {
+				yyVAL.ExtensionAdditions = append(yyVAL.ExtensionAdditions, component)
+			}
 		}
 	case 146:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:727
+//line asn1.y:730
 		{
 			yyVAL.ComponentTypeList = append(make(ComponentTypeList, 0), yyDollar[1].ComponentType)
 		}
 	case 147:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:728
+//line asn1.y:731
 		{
 			yyVAL.ComponentTypeList = append(yyDollar[1].ComponentTypeList, yyDollar[3].ComponentType)
 		}
 	case 148:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:731
+//line asn1.y:734
 		{
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType}
 		}
 	case 149:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:732
+//line asn1.y:735
 		{
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, IsOptional: true}
 		}
 	case 150:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:733
+//line asn1.y:736
 		{
 			cpy := yyDollar[3].Value
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, Default: &cpy}
 		}
 	case 151:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:734
+//line asn1.y:737
 		{
 			yyVAL.ComponentType = ComponentsOfComponentType{Type: yyDollar[3].Type}
 		}
 	case 152:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:739
+//line asn1.y:742
 		{
 			yyVAL.Type = SetType{}
 		}
 	case 153:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:740
+//line asn1.y:743
 		{
 			yyVAL.Type = SetType{}
 		}
 	case 154:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:741
+//line asn1.y:744
 		{
 			yyVAL.Type = SetType{Components: append(yyDollar[3].ComponentTypeLists.Components, yyDollar[3].ComponentTypeLists.TrailingComponents...), ExtensionAdditions: yyDollar[3].ComponentTypeLists.ExtensionAdditions}
 		}
 	case 155:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:746
+//line asn1.y:749
 		{
 			yyVAL.Type = SetOfType{yyDollar[3].Type}
 		}
 	case 156:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:747
+//line asn1.y:750
 		{
 			yyVAL.Type = SetOfType{yyDollar[3].NamedType}
 		}
 	case 157:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:751
+//line asn1.y:754
 		{
 			yyVAL.Type = AnyType{}
 		}
 	case 158:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:752
+//line asn1.y:755
 		{
 			yyVAL.Type = AnyType{Identifier(yyDollar[4].name)}
 		}
 	case 159:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:757
+//line asn1.y:760
 		{
 			yyVAL.Type = yyDollar[3].ChoiceType
 		}
 	case 160:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:760
+//line asn1.y:763
 		{
 			yyVAL.ChoiceType = ChoiceType{AlternativeTypeList: yyDollar[1].AlternativeTypeList}
 		}
 	case 161:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:761
+//line asn1.y:764
 		{
 			yyVAL.ChoiceType = ChoiceType{yyDollar[1].AlternativeTypeList, make([]ChoiceExtension, 0)}
 		}
 	case 162:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line asn1.y:762
+//line asn1.y:765
 		{
 			yyVAL.ChoiceType = ChoiceType{yyDollar[1].AlternativeTypeList, yyDollar[5].ExtensionAdditionAlternativesList}
 		}
 	case 163:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:763
+//line asn1.y:766
 		{
 			yyVAL.ChoiceType = ChoiceType{nil, make([]ChoiceExtension, 0)}
 		}
 	case 164:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:764
+//line asn1.y:767
 		{
 			yyVAL.ChoiceType = ChoiceType{nil, yyDollar[3].ExtensionAdditionAlternativesList}
 		}
 	case 166:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:771
+//line asn1.y:774
 		{
 			yyVAL.ExtensionAdditionAlternativesList = append(make([]ChoiceExtension, 0), yyDollar[1].ExtensionAdditionAlternative)
 		}
 	case 167:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:772
+//line asn1.y:775
 		{
 			yyVAL.ExtensionAdditionAlternativesList = append(yyDollar[1].ExtensionAdditionAlternativesList, yyDollar[3].ExtensionAdditionAlternative)
 		}
 	case 168:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:776
+//line asn1.y:779
 		{
 			yyVAL.ExtensionAdditionAlternative = yyDollar[1].NamedType
 		}
 	case 170:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:783
+//line asn1.y:786
 		{
 			yyVAL.AlternativeTypeList = append(make([]NamedType, 0), yyDollar[1].NamedType)
 		}
 	case 171:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:784
+//line asn1.y:787
 		{
 			yyVAL.AlternativeTypeList = append(yyDollar[1].AlternativeTypeList, yyDollar[3].NamedType)
 		}
 	case 172:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:789
+//line asn1.y:792
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[2].Type}
 		}
 	case 173:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:790
+//line asn1.y:793
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[3].Type, TagType: TAGS_IMPLICIT, HasTagType: true}
 		}
 	case 174:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:791
+//line asn1.y:794
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[3].Type, TagType: TAGS_EXPLICIT, HasTagType: true}
 		}
 	case 175:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:794
+//line asn1.y:797
 		{
 			yyVAL.Tag = Tag{Class: yyDollar[2].Class, ClassNumber: yyDollar[3].Value}
 		}
 	case 176:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:797
+//line asn1.y:800
 		{
 			yyVAL.Value = yyDollar[1].Number
 		}
 	case 177:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:798
+//line asn1.y:801
 		{
 			yyVAL.Value = yyDollar[1].DefinedValue
 		}
 	case 178:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:801
+//line asn1.y:804
 		{
 			yyVAL.Class = CLASS_UNIVERSAL
 		}
 	case 179:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:802
+//line asn1.y:805
 		{
 			yyVAL.Class = CLASS_APPLICATION
 		}
 	case 180:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:803
+//line asn1.y:806
 		{
 			yyVAL.Class = CLASS_PRIVATE
 		}
 	case 181:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:804
+//line asn1.y:807
 		{
 			yyVAL.Class = CLASS_CONTEXT_SPECIFIC
 		}
 	case 182:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:809
+//line asn1.y:812
 		{
 			yyVAL.Type = SequenceOfType{yyDollar[3].Type}
 		}
 	case 183:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:810
+//line asn1.y:813
 		{
 			yyVAL.Type = SequenceOfType{yyDollar[3].NamedType}
 		}
 	case 184:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:815
+//line asn1.y:818
 		{
 			yyVAL.Type = ObjectIdentifierType{}
 		}
 	case 185:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:820
+//line asn1.y:823
 		{
 			yyVAL.ObjectIdentifierValue = yyDollar[2].ObjectIdentifierValue
 		}
 	case 186:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:821
+//line asn1.y:824
 		{
 			cpy := yyDollar[2].DefinedValue
 			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{ObjectIdElement{Reference: &cpy}}, yyDollar[3].ObjectIdentifierValue...)
 		}
 	case 187:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:824
+//line asn1.y:827
 		{
 			yyVAL.ObjectIdentifierValue = ObjectIdentifierValue{yyDollar[1].ObjectIdElement}
 		}
 	case 188:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:825
+//line asn1.y:828
 		{
 			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{yyDollar[1].ObjectIdElement}, yyDollar[2].ObjectIdentifierValue...)
 		}
 	case 189:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:828
+//line asn1.y:831
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{Name: yyDollar[1].name}
 		}
 	case 192:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:831
+//line asn1.y:834
 		{
 			cpy := yyDollar[1].DefinedValue
 			yyVAL.ObjectIdElement = ObjectIdElement{Reference: &cpy}
 		}
 	case 193:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:834
+//line asn1.y:837
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{ID: yyDollar[1].Number.IntValue()}
 		}
 	case 194:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:835
+//line asn1.y:838
 		{
 			cpy := yyDollar[1].DefinedValue
 			yyVAL.ObjectIdElement = ObjectIdElement{Reference: &cpy}
 		}
 	case 195:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:839
+//line asn1.y:842
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{Name: yyDollar[1].name, ID: yyDollar[3].ObjectIdElement.ID, Reference: yyDollar[3].ObjectIdElement.Reference}
 		}
 	case 199:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:851
+//line asn1.y:854
 		{
 			yyVAL.Type = RestrictedStringType{LexType: BMPString}
 		}
 	case 200:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:852
+//line asn1.y:855
 		{
 			yyVAL.Type = RestrictedStringType{LexType: GeneralString}
 		}
 	case 201:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:853
+//line asn1.y:856
 		{
 			yyVAL.Type = RestrictedStringType{LexType: GraphicString}
 		}
 	case 202:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:854
+//line asn1.y:857
 		{
 			yyVAL.Type = RestrictedStringType{LexType: IA5String}
 		}
 	case 203:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:855
+//line asn1.y:858
 		{
 			yyVAL.Type = RestrictedStringType{LexType: ISO646String}
 		}
 	case 204:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:856
+//line asn1.y:859
 		{
 			yyVAL.Type = RestrictedStringType{LexType: NumericString}
 		}
 	case 205:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:857
+//line asn1.y:860
 		{
 			yyVAL.Type = RestrictedStringType{LexType: PrintableString}
 		}
 	case 206:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:858
+//line asn1.y:861
 		{
 			yyVAL.Type = RestrictedStringType{LexType: TeletexString}
 		}
 	case 207:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:859
+//line asn1.y:862
 		{
 			yyVAL.Type = RestrictedStringType{LexType: T61String}
 		}
 	case 208:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:860
+//line asn1.y:863
 		{
 			yyVAL.Type = RestrictedStringType{LexType: UniversalString}
 		}
 	case 209:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:861
+//line asn1.y:864
 		{
 			yyVAL.Type = RestrictedStringType{LexType: UTF8String}
 		}
 	case 210:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:862
+//line asn1.y:865
 		{
 			yyVAL.Type = RestrictedStringType{LexType: VideotexString}
 		}
 	case 211:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:863
+//line asn1.y:866
 		{
 			yyVAL.Type = RestrictedStringType{LexType: VisibleString}
 		}
 	case 212:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:868
+//line asn1.y:871
 		{
 			yyVAL.Type = CharacterStringType{}
 		}
 	case 213:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:873
+//line asn1.y:876
 		{
 			yyVAL.Type = TypeReference("GeneralizedTime")
 		}
 	case 214:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:874
+//line asn1.y:877
 		{
 			yyVAL.Type = TypeReference("UTCTime")
 		}
 	case 215:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:879
+//line asn1.y:882
 		{
 			yyVAL.Type = ConstraintedType{yyDollar[1].Type, yyDollar[2].Constraint}
 		}
 	case 217:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:885
+//line asn1.y:888
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].Type}, yyDollar[2].Constraint}
 		}
 	case 218:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:886
+//line asn1.y:889
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].Type}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
 	case 219:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:887
+//line asn1.y:890
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].Type}, yyDollar[2].Constraint}
 		}
 	case 220:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:888
+//line asn1.y:891
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].Type}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
 	case 221:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:889
+//line asn1.y:892
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].NamedType}, yyDollar[2].Constraint}
 		}
 	case 222:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:890
+//line asn1.y:893
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].NamedType}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
 	case 223:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:891
+//line asn1.y:894
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].NamedType}, yyDollar[2].Constraint}
 		}
 	case 224:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:892
+//line asn1.y:895
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].NamedType}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
 	case 225:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:897
+//line asn1.y:900
 		{
 			yyVAL.Constraint = Constraint{ConstraintSpec: yyDollar[2].ConstraintSpec}
 		}
 	case 226:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:900
+//line asn1.y:903
 		{
 			yyVAL.ConstraintSpec = yyDollar[1].SubtypeConstraint
 		}
 	case 229:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:910
+//line asn1.y:913
 		{
 			yyVAL.SubtypeConstraint = yyDollar[1].SubtypeConstraint
 		}
 	case 230:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:911
+//line asn1.y:914
 		{
 			yyVAL.SubtypeConstraint = append(yyDollar[1].SubtypeConstraint, yyDollar[5].ElementSetSpec)
 		}
 	case 231:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:914
+//line asn1.y:917
 		{
 			yyVAL.SubtypeConstraint = SubtypeConstraint{yyDollar[1].ElementSetSpec}
 		}
 	case 233:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:920
+//line asn1.y:923
 		{
 			yyVAL.ElementSetSpec = yyDollar[1].Unions
 		}
 	case 234:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:921
+//line asn1.y:924
 		{
 			yyVAL.ElementSetSpec = yyDollar[2].Exclusions
 		}
 	case 235:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:924
+//line asn1.y:927
 		{
 			yyVAL.Unions = Unions{yyDollar[1].Intersections}
 		}
 	case 236:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:925
+//line asn1.y:928
 		{
 			yyVAL.Unions = append(yyDollar[1].Unions, yyDollar[3].Intersections)
 		}
 	case 238:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:931
+//line asn1.y:934
 		{
 			yyVAL.Intersections = Intersections{yyDollar[1].IntersectionElements}
 		}
 	case 239:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:932
+//line asn1.y:935
 		{
 			yyVAL.Intersections = append(yyDollar[1].Intersections, yyDollar[3].IntersectionElements)
 		}
 	case 241:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:938
+//line asn1.y:941
 		{
 			yyVAL.IntersectionElements = IntersectionElements{Elements: yyDollar[1].Elements}
 		}
 	case 242:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:939
+//line asn1.y:942
 		{
 			yyVAL.IntersectionElements = IntersectionElements{Elements: yyDollar[1].Elements, Exclusions: yyDollar[2].Exclusions}
 		}
 	case 244:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:945
+//line asn1.y:948
 		{
 			yyVAL.Exclusions = Exclusions{yyDollar[2].Elements}
 		}
 	case 249:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:954
+//line asn1.y:957
 		{
 			yyVAL.Elements = yyDollar[1].Elements
 		}
 	case 250:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:956
+//line asn1.y:959
 		{
 			yyVAL.Elements = yyDollar[2].ElementSetSpec
 		}
 	case 256:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:971
+//line asn1.y:974
 		{
 			yyVAL.Elements = SingleValue{yyDollar[1].Value}
 		}
 	case 257:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:976
+//line asn1.y:979
 		{
 			yyVAL.Elements = ValueRange{yyDollar[1].RangeEndpoint, yyDollar[3].RangeEndpoint}
 		}
 	case 258:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:979
+//line asn1.y:982
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value}
 		}
 	case 259:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:980
+//line asn1.y:983
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value, IsOpen: true}
 		}
 	case 260:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:983
+//line asn1.y:986
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value}
 		}
 	case 261:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:984
+//line asn1.y:987
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[2].Value, IsOpen: true}
 		}
 	case 263:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:988
+//line asn1.y:991
 		{
 			yyVAL.Value = nil
 		}
 	case 265:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:992
+//line asn1.y:995
 		{
 			yyVAL.Value = nil
 		}
 	case 266:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:997
+//line asn1.y:1000
 		{
 			yyVAL.Elements = SizeConstraint{yyDollar[2].Constraint}
 		}
 	case 267:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:1002
+//line asn1.y:1005
 		{
 			yyVAL.Elements = TypeConstraint{yyDollar[1].Type}
 		}
 	case 268:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:1007
+//line asn1.y:1010
 		{
 			yyVAL.Elements = InnerTypeConstraint{}
 		}
 	case 269:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:1008
+//line asn1.y:1011
 		{
 			yyVAL.Elements = InnerTypeConstraint{}
 		}
-- 
2.43.0


From f1bc26a1bcd9f3118a2d153a161628083d489a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 19/22] fix: accept imports from several modules without
 assigned identifiers

---
 asn1.y |   23 +-
 y.go   | 1348 ++++++++++++++++++++++++++++----------------------------
 2 files changed, 682 insertions(+), 689 deletions(-)

diff --git a/asn1.y b/asn1.y
index ec23f1e..f18d096 100644
--- a/asn1.y
+++ b/asn1.y
@@ -54,10 +54,8 @@ import (
     NamedBitList []NamedBit
     NamedBit NamedBit
     Imports []SymbolsFromModule
-    SymbolsFromModule SymbolsFromModule
     SymbolList []Symbol
     Symbol Symbol
-    GlobalModuleReference GlobalModuleReference
     AlternativeTypeList []NamedType
     ChoiceType ChoiceType
     ExtensionAdditionAlternative ChoiceExtension
@@ -296,12 +294,10 @@ import (
 %type <Imports> Imports
 %type <Imports> SymbolsImported
 %type <Imports> SymbolsFromModuleList
-%type <SymbolsFromModule> SymbolsFromModule
 %type <SymbolList> SymbolList
 %type <Symbol> Symbol
 %type <Symbol> Reference  // quite questionable
 %type <Value> AssignedIdentifier
-%type <GlobalModuleReference> GlobalModuleReference
 %type <Type> ChoiceType
 %type <ChoiceType> AlternativeTypeLists
 %type <AlternativeTypeList> AlternativeTypeList RootAlternativeTypeList
@@ -412,19 +408,20 @@ SymbolsImported : SymbolsFromModuleList  { $$ = $1 }
                 | /*empty*/  { $$ = make([]SymbolsFromModule, 0) }
 ;
 
-SymbolsFromModuleList : SymbolsFromModule  { $$ = append(make([]SymbolsFromModule, 0), $1) }
-                      | SymbolsFromModuleList SymbolsFromModule  { $$ = append($1, $2) }
-;
-
-SymbolsFromModule : SymbolList FROM GlobalModuleReference  { $$ = SymbolsFromModule{$1, $3} }
-;
-
-GlobalModuleReference : modulereference AssignedIdentifier  { $$ = GlobalModuleReference{$1, $2} }
+// Edited from the doc - SymbolsFromModule and GlobalModuleReference are inlined, so that a reference following module name is taken
+// as AssignedIdentifier or as first Symbol of the next module depending on the token after it.
+SymbolsFromModuleList : SymbolList FROM modulereference
+                        { $$ = []SymbolsFromModule{{$1, GlobalModuleReference{$3, nil}}} }
+                      | SymbolList FROM modulereference AssignedIdentifier
+                        { $$ = []SymbolsFromModule{{$1, GlobalModuleReference{$3, $4}}} }
+                      | SymbolList FROM modulereference SymbolsFromModuleList
+                        { $$ = append([]SymbolsFromModule{{$1, GlobalModuleReference{$3, nil}}}, $4...) }
+                      | SymbolList FROM modulereference AssignedIdentifier SymbolsFromModuleList
+                        { $$ = append([]SymbolsFromModule{{$1, GlobalModuleReference{$3, $4}}}, $5...) }
 ;
 
 AssignedIdentifier : ObjectIdentifierValue  { $$ = $1 }
                    | DefinedValue  { $$ = $1 }
-                   | /*empty*/  { $$ = nil }
 ;
 
 SymbolList : Symbol  { $$ = append(make([]Symbol, 0), $1) }
diff --git a/y.go b/y.go
index 85706ba..9a3cdfd 100644
--- a/y.go
+++ b/y.go
@@ -56,10 +56,8 @@ type yySymType struct {
 	NamedBitList                      []NamedBit
 	NamedBit                          NamedBit
 	Imports                           []SymbolsFromModule
-	SymbolsFromModule                 SymbolsFromModule
 	SymbolList                        []Symbol
 	Symbol                            Symbol
-	GlobalModuleReference             GlobalModuleReference
 	AlternativeTypeList               []NamedType
 	ChoiceType                        ChoiceType
 	ExtensionAdditionAlternative      ChoiceExtension
@@ -335,7 +333,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line asn1.y:1067
+//line asn1.y:1064
 
 //line yacctab:1
 var yyExca = [...]int16{
@@ -348,354 +346,358 @@ var yyExca = [...]int16{
 	-1, 47,
 	31, 3,
 	-2, 2,
-	-1, 178,
-	44, 237,
-	94, 237,
-	-2, 233,
-	-1, 180,
-	46, 240,
-	53, 240,
-	-2, 235,
-	-1, 184,
-	60, 243,
-	-2, 241,
-	-1, 193,
-	16, 262,
-	28, 262,
-	-2, 256,
+	-1, 175,
+	44, 236,
+	94, 236,
+	-2, 232,
+	-1, 177,
+	46, 239,
+	53, 239,
+	-2, 234,
+	-1, 181,
+	60, 242,
+	-2, 240,
+	-1, 190,
+	16, 261,
+	28, 261,
+	-2, 255,
+	-1, 244,
+	30, 45,
+	84, 45,
+	-2, 52,
 	-1, 251,
 	32, 6,
 	-2, 4,
-	-1, 327,
-	46, 240,
-	53, 240,
-	-2, 236,
-	-1, 404,
-	30, 138,
-	-2, 131,
+	-1, 328,
+	46, 239,
+	53, 239,
+	-2, 235,
+	-1, 405,
+	30, 137,
+	-2, 130,
 }
 
 const yyPrivate = 57344
 
-const yyLast = 932
+const yyLast = 933
 
 var yyAct = [...]int16{
-	205, 218, 208, 217, 280, 207, 406, 371, 17, 347,
-	348, 219, 127, 177, 17, 315, 258, 276, 193, 237,
-	311, 331, 241, 249, 202, 209, 245, 261, 170, 144,
-	182, 216, 163, 151, 180, 159, 195, 184, 5, 240,
-	3, 293, 38, 415, 19, 168, 29, 11, 9, 133,
-	295, 19, 19, 168, 19, 190, 233, 264, 46, 294,
-	54, 46, 272, 165, 204, 332, 273, 24, 232, 231,
-	224, 165, 54, 169, 226, 45, 150, 23, 45, 223,
-	46, 169, 22, 21, 19, 46, 19, 35, 31, 19,
-	168, 65, 10, 416, 204, 152, 204, 45, 334, 148,
-	19, 125, 45, 62, 214, 134, 172, 265, 165, 414,
-	346, 409, 137, 142, 172, 129, 42, 162, 169, 262,
-	47, 48, 36, 161, 429, 162, 19, 164, 140, 164,
-	259, 161, 210, 213, 128, 135, 404, 409, 121, 145,
-	61, 128, 203, 334, 50, 155, 171, 220, 222, 58,
-	220, 172, 225, 230, 171, 138, 143, 123, 212, 60,
-	215, 316, 162, 154, 139, 227, 252, 103, 161, 40,
-	238, 139, 228, 221, 267, 244, 59, 307, 229, 124,
-	220, 268, 220, 234, 235, 400, 246, 128, 164, 317,
-	243, 171, 367, 399, 63, 141, 220, 388, 257, 384,
-	277, 270, 136, 44, 383, 53, 44, 122, 4, 48,
-	323, 329, 41, 269, 318, 32, 126, 53, 128, 343,
-	289, 282, 220, 255, 313, 44, 286, 27, 431, 254,
-	44, 308, 300, 128, 306, 297, 299, 341, 324, 430,
-	342, 430, 283, 303, 305, 426, 287, 252, 252, 288,
-	421, 381, 410, 403, 395, 394, 386, 379, 369, 290,
-	296, 298, 292, 164, 164, 285, 281, 164, 302, 304,
-	279, 260, 164, 310, 312, 62, 274, 15, 425, 393,
-	321, 4, 48, 362, 360, 336, 210, 355, 351, 213,
-	333, 345, 320, 349, 357, 164, 322, 328, 327, 309,
-	326, 165, 365, 301, 344, 30, 291, 353, 284, 278,
-	25, 340, 199, 358, 354, 132, 131, 356, 130, 352,
-	7, 346, 325, 271, 64, 19, 19, 28, 19, 19,
-	12, 361, 359, 164, 364, 346, 372, 363, 350, 204,
-	423, 374, 248, 277, 26, 4, 48, 239, 368, 378,
-	14, 333, 380, 366, 370, 314, 14, 4, 48, 253,
-	375, 385, 256, 376, 377, 19, 18, 382, 164, 18,
-	164, 4, 251, 253, 47, 48, 55, 48, 19, 48,
-	4, 389, 319, 392, 413, 397, 390, 398, 407, 401,
-	396, 349, 402, 349, 373, 374, 374, 339, 338, 337,
-	335, 266, 411, 412, 210, 263, 417, 422, 387, 419,
-	420, 55, 19, 168, 424, 39, 34, 1, 418, 206,
-	211, 408, 405, 407, 201, 200, 428, 210, 427, 351,
-	72, 165, 357, 153, 242, 43, 57, 187, 56, 120,
-	37, 169, 275, 69, 77, 86, 149, 236, 102, 84,
-	82, 81, 80, 79, 94, 67, 85, 91, 90, 99,
-	179, 93, 110, 100, 71, 197, 330, 139, 194, 192,
-	198, 191, 186, 189, 172, 188, 88, 185, 95, 114,
-	106, 183, 111, 181, 89, 162, 96, 113, 178, 391,
-	176, 161, 119, 104, 97, 175, 92, 107, 55, 19,
-	168, 108, 174, 173, 87, 109, 68, 33, 49, 51,
-	52, 115, 167, 166, 171, 105, 157, 160, 165, 116,
-	78, 158, 112, 117, 187, 156, 120, 118, 169, 247,
-	98, 196, 101, 250, 83, 73, 75, 66, 70, 74,
-	76, 94, 6, 16, 13, 2, 99, 8, 93, 110,
-	100, 20, 0, 0, 139, 0, 0, 198, 0, 0,
-	0, 172, 0, 88, 0, 95, 114, 106, 0, 111,
-	0, 89, 162, 96, 113, 0, 0, 0, 161, 119,
-	104, 97, 0, 92, 107, 47, 48, 323, 108, 0,
-	0, 0, 109, 0, 0, 0, 0, 0, 115, 0,
-	0, 171, 105, 0, 0, 0, 116, 0, 0, 112,
-	117, 0, 0, 120, 118, 324, 0, 98, 196, 101,
-	0, 0, 0, 0, 0, 0, 0, 0, 94, 0,
-	0, 0, 0, 99, 0, 93, 110, 100, 0, 0,
+	202, 215, 205, 214, 280, 204, 407, 372, 17, 348,
+	349, 216, 125, 174, 17, 316, 258, 276, 190, 234,
+	312, 332, 238, 249, 192, 206, 199, 245, 177, 57,
+	179, 142, 261, 167, 156, 181, 160, 102, 213, 5,
+	149, 293, 38, 416, 29, 11, 9, 272, 19, 131,
+	138, 273, 295, 264, 229, 187, 126, 19, 46, 294,
+	54, 46, 237, 3, 228, 221, 220, 347, 410, 61,
+	19, 133, 54, 44, 230, 53, 44, 126, 24, 64,
+	405, 410, 19, 148, 46, 23, 137, 53, 123, 22,
+	10, 21, 201, 417, 35, 19, 19, 31, 45, 44,
+	146, 45, 150, 265, 132, 201, 201, 137, 127, 415,
+	36, 135, 140, 42, 262, 223, 211, 139, 47, 48,
+	120, 50, 259, 121, 45, 161, 143, 161, 19, 165,
+	207, 210, 267, 19, 165, 60, 59, 126, 134, 268,
+	200, 430, 368, 152, 217, 317, 219, 162, 307, 333,
+	222, 227, 162, 217, 136, 141, 209, 166, 58, 218,
+	212, 401, 166, 252, 226, 224, 217, 40, 235, 231,
+	232, 62, 242, 318, 244, 122, 400, 225, 217, 389,
+	385, 240, 335, 246, 151, 161, 241, 335, 384, 44,
+	169, 217, 217, 330, 41, 169, 319, 277, 270, 124,
+	257, 159, 32, 126, 344, 314, 159, 158, 286, 4,
+	48, 324, 158, 255, 243, 269, 126, 289, 282, 254,
+	431, 27, 342, 432, 308, 343, 427, 283, 422, 300,
+	168, 306, 297, 299, 431, 168, 382, 19, 165, 325,
+	303, 305, 411, 404, 396, 296, 298, 252, 252, 287,
+	395, 387, 288, 302, 304, 380, 162, 370, 290, 292,
+	274, 285, 46, 161, 161, 281, 166, 161, 279, 309,
+	260, 61, 161, 426, 311, 313, 15, 44, 394, 363,
+	322, 47, 48, 361, 323, 337, 207, 356, 352, 210,
+	334, 346, 328, 350, 358, 161, 321, 329, 327, 169,
+	310, 162, 45, 301, 30, 291, 345, 354, 284, 278,
+	159, 25, 341, 359, 355, 196, 158, 130, 129, 357,
+	360, 128, 7, 353, 366, 347, 19, 19, 326, 271,
+	19, 362, 63, 19, 161, 365, 347, 373, 364, 168,
+	351, 424, 375, 201, 277, 28, 248, 19, 18, 12,
+	379, 369, 334, 381, 14, 371, 4, 48, 236, 367,
+	14, 376, 386, 26, 377, 378, 315, 256, 383, 161,
+	18, 161, 4, 48, 253, 4, 251, 253, 47, 48,
+	55, 48, 390, 19, 393, 48, 4, 391, 399, 408,
+	402, 320, 350, 403, 350, 414, 375, 375, 398, 397,
+	374, 340, 339, 412, 413, 207, 338, 418, 336, 266,
+	420, 421, 55, 19, 165, 425, 263, 423, 388, 39,
+	34, 1, 419, 203, 408, 208, 409, 429, 207, 428,
+	352, 406, 162, 358, 198, 197, 71, 239, 184, 43,
+	119, 56, 166, 37, 275, 68, 76, 85, 147, 233,
+	101, 83, 81, 80, 79, 93, 78, 66, 84, 90,
+	98, 176, 92, 109, 99, 89, 70, 194, 137, 331,
+	191, 195, 189, 188, 183, 169, 186, 87, 185, 94,
+	113, 105, 182, 110, 180, 88, 159, 95, 112, 178,
+	175, 392, 158, 118, 103, 96, 173, 91, 106, 55,
+	19, 165, 107, 172, 171, 170, 108, 86, 67, 33,
+	49, 51, 114, 52, 164, 168, 104, 163, 154, 162,
+	115, 157, 77, 111, 116, 184, 155, 119, 117, 166,
+	153, 97, 193, 100, 247, 250, 82, 72, 74, 65,
+	69, 73, 93, 75, 6, 16, 13, 98, 2, 92,
+	109, 99, 8, 20, 0, 137, 0, 0, 195, 0,
+	0, 0, 169, 0, 87, 0, 94, 113, 105, 0,
+	110, 0, 88, 159, 95, 112, 0, 0, 0, 158,
+	118, 103, 96, 0, 91, 106, 47, 48, 324, 107,
+	0, 0, 0, 108, 0, 0, 0, 0, 0, 114,
+	0, 0, 168, 104, 0, 0, 0, 115, 0, 0,
+	111, 116, 0, 0, 119, 117, 325, 0, 97, 193,
+	100, 0, 0, 0, 0, 0, 0, 0, 0, 93,
+	0, 0, 0, 0, 98, 0, 92, 109, 99, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	88, 0, 95, 114, 106, 0, 111, 0, 89, 55,
-	96, 113, 0, 0, 0, 0, 119, 104, 97, 0,
-	92, 107, 0, 0, 0, 108, 0, 0, 0, 109,
-	0, 0, 0, 0, 0, 115, 0, 120, 0, 105,
-	0, 0, 0, 116, 0, 0, 112, 117, 0, 0,
-	0, 118, 94, 0, 98, 0, 101, 99, 0, 93,
-	110, 100, 0, 0, 0, 0, 0, 147, 0, 0,
-	0, 0, 0, 0, 88, 0, 95, 114, 106, 0,
-	111, 0, 89, 0, 96, 113, 55, 19, 0, 0,
-	119, 104, 97, 0, 92, 107, 0, 0, 0, 108,
-	0, 0, 0, 109, 0, 0, 0, 0, 0, 115,
-	0, 146, 0, 105, 120, 0, 0, 116, 0, 0,
-	112, 117, 0, 0, 0, 118, 0, 0, 98, 94,
-	101, 0, 0, 0, 99, 0, 93, 110, 100, 0,
+	0, 87, 0, 94, 113, 105, 0, 110, 0, 88,
+	55, 95, 112, 0, 0, 0, 0, 118, 103, 96,
+	0, 91, 106, 0, 0, 0, 107, 0, 0, 0,
+	108, 0, 0, 0, 0, 0, 114, 0, 119, 0,
+	104, 0, 0, 0, 115, 0, 0, 111, 116, 0,
+	0, 0, 117, 93, 0, 97, 0, 100, 98, 0,
+	92, 109, 99, 0, 0, 0, 0, 0, 145, 0,
+	0, 0, 0, 0, 0, 87, 0, 94, 113, 105,
+	0, 110, 0, 88, 0, 95, 112, 55, 19, 0,
+	0, 118, 103, 96, 0, 91, 106, 0, 0, 0,
+	107, 0, 0, 0, 108, 0, 0, 0, 0, 0,
+	114, 0, 144, 0, 104, 119, 0, 0, 115, 0,
+	0, 111, 116, 0, 0, 0, 117, 0, 0, 97,
+	93, 100, 0, 0, 0, 98, 0, 92, 109, 99,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 88, 0, 95, 114, 106, 0, 111, 0, 89,
-	55, 96, 113, 0, 0, 0, 0, 119, 104, 97,
-	0, 92, 107, 0, 0, 0, 108, 0, 0, 0,
-	109, 0, 0, 0, 0, 0, 115, 0, 120, 0,
-	105, 0, 0, 0, 116, 0, 0, 112, 117, 0,
-	0, 0, 118, 94, 0, 98, 0, 101, 99, 0,
-	93, 110, 100, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 88, 0, 95, 114, 106,
-	0, 111, 0, 89, 0, 96, 113, 0, 0, 0,
-	0, 119, 104, 97, 0, 92, 107, 0, 0, 0,
-	108, 0, 0, 0, 109, 0, 0, 0, 0, 0,
-	115, 0, 0, 0, 105, 0, 0, 0, 116, 0,
-	0, 112, 117, 0, 0, 0, 118, 0, 0, 98,
-	0, 101,
+	0, 0, 87, 0, 94, 113, 105, 0, 110, 0,
+	88, 55, 95, 112, 0, 0, 0, 0, 118, 103,
+	96, 0, 91, 106, 0, 0, 0, 107, 0, 0,
+	0, 108, 0, 0, 0, 0, 0, 114, 0, 119,
+	0, 104, 0, 0, 0, 115, 0, 0, 111, 116,
+	0, 0, 0, 117, 93, 0, 97, 0, 100, 98,
+	0, 92, 109, 99, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 87, 0, 94, 113,
+	105, 0, 110, 0, 88, 0, 95, 112, 0, 0,
+	0, 0, 118, 103, 96, 0, 91, 106, 0, 0,
+	0, 107, 0, 0, 0, 108, 0, 0, 0, 0,
+	0, 114, 0, 0, 0, 104, 0, 0, 0, 115,
+	0, 0, 111, 116, 0, 0, 0, 117, 0, 0,
+	97, 0, 100,
 }
 
 var yyPact = [...]int16{
-	374, -1000, -81, 294, -1000, -16, -1000, 358, 11, 4,
-	-1, -11, 283, 358, -1000, -1000, -1000, 195, -1000, -1000,
-	312, -66, -1000, -1000, -1000, -1000, -1000, 361, 21, -1000,
-	182, 19, -1000, 70, -74, 114, -1000, 370, 368, 117,
-	98, 245, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 370,
-	-1000, -1000, -1000, 309, 804, -1000, 96, 368, -1000, 73,
-	-1000, -1000, 368, -1000, 804, 201, -1000, -1000, -1000, -1000,
+	380, -1000, -80, 296, -1000, -18, -1000, 340, 19, 11,
+	7, 0, 284, 340, -1000, -1000, -1000, 189, -1000, -1000,
+	330, -68, -1000, -1000, -1000, -1000, -1000, 362, 30, -1000,
+	169, 26, -1000, 58, -74, 112, -1000, 374, 372, 94,
+	93, 241, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 374,
+	-1000, -1000, -1000, 317, 805, -1000, 78, -1000, 39, -1000,
+	-1000, 372, -1000, 805, 184, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 49, -1000,
-	-1000, -1000, 292, 290, 289, -1000, -55, 39, -1000, 109,
-	102, -99, 653, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 33,
-	-26, -1000, -1000, 374, -1000, 186, 45, -1000, 405, 286,
-	322, 371, 371, -1000, -1000, 77, 730, -14, -23, 186,
-	47, 730, -24, -25, -27, 186, 804, 804, -1000, 339,
-	-1000, -1000, -1000, -1000, 275, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, 365, -1000, -1000, 198, 354,
-	-1000, -1000, -1000, 85, -1000, -1000, 241, -1000, -1000, 59,
-	-1000, 13, -1000, 128, -1000, 59, -1000, 405, -1000, -1000,
-	-1000, -1000, -1000, -1000, 307, 186, -37, 248, -1000, 371,
-	282, 240, 236, -1000, 85, 804, 281, 235, -1000, -1000,
-	194, 219, -1000, 194, -1000, 229, 279, 232, -1000, -56,
-	-43, 186, -1000, 730, 730, -1000, -1000, 229, 276, 186,
-	-1000, 730, 730, 371, 186, 186, 142, -1000, -1000, -1000,
-	200, -1000, -1000, -1000, -1000, 272, 365, 365, -1000, -1000,
-	-1000, -1000, 192, -1000, 347, 153, 198, -1000, 181, 579,
-	305, -1000, 492, 492, -1000, -1000, 492, -1000, -1000, -1000,
-	178, 37, 186, 285, -1000, 210, -1000, 187, -1000, 322,
-	-1000, 318, -1000, 186, -1000, 321, 202, -1000, 371, 260,
-	304, -1000, 79, -1000, 45, 804, 186, -1000, 186, -1000,
-	257, -1000, 186, -1000, 186, -1000, -1000, -1000, 372, -1000,
-	256, -1000, -1000, 351, 277, -1000, -1000, 345, -1000, -1000,
-	-1000, -1000, 155, -1000, 340, 228, -1000, -1000, -1000, -1000,
-	-1000, -1000, 82, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	319, -1000, 371, 339, 227, -1000, -1000, 221, -1000, -1000,
-	85, -1000, 171, 166, -1000, -1000, 226, -1000, -1000, 186,
-	-1000, -1000, -1000, 164, -1000, 153, -1000, 45, -1000, 405,
-	-1000, 252, 225, 224, 186, -1000, 160, 152, -1000, 318,
-	-1000, 318, 223, -1000, -1000, -1000, 119, 222, -1000, -1000,
-	-1000, -1000, -1000, -1000, 371, 371, -1000, -4, -1000, -1000,
-	-1000, 221, -1000, 371, -1000, 220, -1000, -1000, -1000, 332,
-	44, 251, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 215,
-	-1000, 93, 44, 87, 211, -1000, 371, -1000, 209, -1000,
-	44, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 42, -1000, -1000,
+	-1000, 295, 292, 291, -1000, -55, 38, -1000, 45, 24,
+	-97, 654, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 34, -19,
+	-1000, 380, -1000, 171, 230, -1000, 406, 289, 326, 376,
+	376, -1000, -1000, 89, 731, -27, -28, 171, 88, 731,
+	-29, -39, -9, 171, 805, 805, -1000, 350, -1000, -1000,
+	-1000, 275, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, 369, -1000, -1000, 188, 359, -1000, -1000, -1000,
+	77, -1000, -1000, 240, -1000, -1000, 54, -1000, 9, -1000,
+	86, -1000, 54, -1000, 406, -1000, -1000, -1000, -1000, -1000,
+	-1000, 313, 171, -52, 232, -1000, 376, 282, 238, 235,
+	-1000, 77, 805, 281, 231, -1000, -1000, 176, 222, -1000,
+	176, -1000, 228, 278, 229, -1000, -56, -41, 171, -1000,
+	731, 731, -1000, -1000, 228, 276, 171, -1000, 731, 731,
+	376, 171, 171, 113, -1000, -1000, -1000, 193, -1000, 372,
+	-1000, -1000, -1000, 193, -1000, 273, 369, 369, -1000, -1000,
+	-1000, -1000, 173, -1000, 358, 137, 188, -1000, 163, 580,
+	311, -1000, 493, 493, -1000, -1000, 493, -1000, -1000, -1000,
+	160, 121, 171, 286, -1000, 195, -1000, 172, -1000, 326,
+	-1000, 319, -1000, 171, -1000, 323, 203, -1000, 376, 260,
+	308, -1000, 75, -1000, 230, 805, 171, -1000, 171, -1000,
+	256, -1000, 171, -1000, 171, -1000, -1000, -1000, 378, -1000,
+	-1000, 252, -1000, -1000, 366, 299, -1000, -1000, 351, -1000,
+	-1000, -1000, -1000, 105, -1000, 343, 227, -1000, -1000, -1000,
+	-1000, -1000, -1000, 126, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, 320, -1000, 376, 350, 225, -1000, -1000, 206, -1000,
+	-1000, 77, -1000, 155, 147, -1000, -1000, 221, -1000, -1000,
+	171, -1000, -1000, -1000, 146, -1000, 137, -1000, 230, -1000,
+	406, -1000, 251, 220, 214, 171, -1000, 143, 128, -1000,
+	319, -1000, 319, 213, -1000, -1000, -1000, 63, 212, -1000,
+	-1000, -1000, -1000, -1000, -1000, 376, 376, -1000, -4, -1000,
+	-1000, -1000, 206, -1000, 376, -1000, 198, -1000, -1000, -1000,
+	333, 41, 246, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	196, -1000, 50, 41, 104, 190, -1000, 376, -1000, 204,
+	-1000, 41, -1000,
 }
 
 var yyPgo = [...]int16{
-	0, 28, 15, 39, 167, 0, 551, 547, 545, 544,
-	277, 330, 543, 542, 342, 20, 540, 539, 538, 537,
-	36, 536, 535, 534, 11, 23, 533, 529, 26, 35,
-	525, 18, 521, 520, 517, 516, 513, 512, 32, 19,
-	144, 510, 509, 508, 507, 22, 506, 504, 12, 503,
-	502, 495, 490, 489, 13, 488, 483, 34, 481, 30,
-	27, 37, 477, 475, 473, 472, 471, 469, 55, 468,
-	466, 465, 21, 464, 458, 457, 456, 455, 453, 452,
-	451, 450, 1, 3, 450, 31, 449, 448, 447, 446,
-	445, 444, 443, 442, 17, 440, 438, 436, 149, 176,
-	116, 435, 434, 433, 430, 425, 424, 424, 10, 9,
-	422, 6, 421, 25, 420, 419, 5, 418, 2, 417,
-	416, 415, 16, 24, 4, 408, 407, 407, 405, 401,
-	400, 399, 398, 397, 7, 394, 390, 385, 384, 382,
+	0, 33, 15, 62, 37, 0, 553, 552, 548, 546,
+	276, 349, 545, 544, 346, 20, 543, 541, 540, 539,
+	24, 538, 537, 536, 11, 23, 535, 534, 27, 34,
+	530, 18, 526, 522, 521, 518, 517, 514, 36, 19,
+	121, 513, 511, 510, 509, 22, 508, 507, 12, 505,
+	504, 503, 496, 491, 13, 490, 489, 28, 484, 30,
+	32, 35, 482, 478, 476, 474, 473, 472, 55, 470,
+	469, 467, 21, 466, 465, 459, 458, 457, 456, 454,
+	453, 452, 1, 3, 452, 38, 451, 450, 449, 448,
+	447, 446, 445, 444, 17, 443, 441, 29, 158, 113,
+	439, 437, 436, 435, 434, 434, 10, 9, 431, 6,
+	426, 25, 425, 423, 5, 422, 2, 421, 420, 419,
+	16, 26, 4, 418, 417, 417, 416, 409, 408, 406,
+	402, 401, 7, 400, 399, 398, 395, 391,
 }
 
 var yyR1 = [...]uint8{
-	0, 119, 4, 3, 45, 39, 5, 8, 13, 13,
+	0, 117, 4, 3, 45, 39, 5, 8, 13, 13,
 	11, 11, 9, 9, 9, 10, 12, 7, 7, 7,
-	7, 6, 6, 44, 44, 120, 120, 120, 121, 121,
-	95, 95, 96, 96, 97, 97, 98, 103, 102, 102,
-	102, 99, 99, 100, 101, 101, 101, 43, 43, 40,
-	40, 76, 15, 15, 42, 41, 20, 20, 20, 19,
+	7, 6, 6, 44, 44, 118, 118, 118, 119, 119,
+	95, 95, 96, 96, 97, 97, 97, 97, 101, 101,
+	98, 98, 99, 100, 100, 100, 43, 43, 40, 40,
+	76, 15, 15, 42, 41, 20, 20, 20, 19, 19,
 	19, 19, 19, 19, 19, 19, 19, 19, 19, 19,
-	19, 19, 19, 19, 19, 77, 77, 24, 31, 30,
-	30, 30, 30, 18, 35, 35, 17, 17, 114, 114,
-	113, 113, 38, 38, 32, 32, 22, 115, 115, 115,
-	117, 116, 116, 118, 118, 33, 34, 34, 36, 36,
-	37, 37, 1, 1, 1, 1, 2, 2, 92, 92,
-	93, 93, 94, 94, 91, 21, 78, 78, 78, 123,
-	123, 124, 124, 85, 85, 85, 85, 84, 125, 110,
-	110, 111, 111, 112, 126, 126, 83, 83, 82, 82,
-	82, 82, 80, 80, 80, 81, 81, 23, 23, 104,
-	105, 105, 105, 105, 105, 107, 109, 109, 108, 127,
-	106, 106, 86, 86, 86, 87, 88, 88, 89, 89,
-	89, 89, 79, 79, 16, 29, 29, 28, 28, 27,
-	27, 27, 27, 25, 25, 26, 14, 73, 73, 74,
+	19, 19, 19, 19, 77, 77, 24, 31, 30, 30,
+	30, 30, 18, 35, 35, 17, 17, 112, 112, 111,
+	111, 38, 38, 32, 32, 22, 113, 113, 113, 115,
+	114, 114, 116, 116, 33, 34, 34, 36, 36, 37,
+	37, 1, 1, 1, 1, 2, 2, 92, 92, 93,
+	93, 94, 94, 91, 21, 78, 78, 78, 121, 121,
+	122, 122, 85, 85, 85, 85, 84, 123, 108, 108,
+	109, 109, 110, 124, 124, 83, 83, 82, 82, 82,
+	82, 80, 80, 80, 81, 81, 23, 23, 102, 103,
+	103, 103, 103, 103, 105, 107, 107, 106, 125, 104,
+	104, 86, 86, 86, 87, 88, 88, 89, 89, 89,
+	89, 79, 79, 16, 29, 29, 28, 28, 27, 27,
+	27, 27, 25, 25, 26, 14, 73, 73, 74, 74,
 	74, 74, 74, 74, 74, 74, 74, 74, 74, 74,
-	74, 74, 75, 90, 90, 46, 46, 47, 47, 47,
-	47, 47, 47, 47, 47, 48, 49, 50, 51, 51,
-	51, 52, 53, 54, 54, 55, 55, 56, 57, 57,
-	58, 59, 59, 62, 60, 128, 128, 129, 129, 61,
-	61, 65, 65, 65, 65, 65, 63, 64, 69, 69,
-	70, 70, 71, 71, 72, 72, 68, 66, 67, 67,
-	130, 131, 131, 132, 133, 134, 134, 135, 136, 137,
-	137, 138, 138, 138, 138, 122, 122, 139, 139, 139,
+	74, 75, 90, 90, 46, 46, 47, 47, 47, 47,
+	47, 47, 47, 47, 48, 49, 50, 51, 51, 51,
+	52, 53, 54, 54, 55, 55, 56, 57, 57, 58,
+	59, 59, 62, 60, 126, 126, 127, 127, 61, 61,
+	65, 65, 65, 65, 65, 63, 64, 69, 69, 70,
+	70, 71, 71, 72, 72, 68, 66, 67, 67, 128,
+	129, 129, 130, 131, 132, 132, 133, 134, 135, 135,
+	136, 136, 136, 136, 120, 120, 137, 137, 137,
 }
 
 var yyR2 = [...]int8{
 	0, 8, 1, 1, 1, 1, 1, 2, 3, 0,
 	1, 2, 1, 1, 1, 1, 4, 2, 2, 2,
 	0, 2, 0, 3, 0, 3, 3, 0, 1, 0,
-	3, 0, 1, 0, 1, 2, 3, 2, 1, 1,
-	0, 1, 3, 1, 1, 1, 1, 1, 2, 1,
-	1, 1, 3, 1, 3, 4, 1, 1, 1, 1,
+	3, 0, 1, 0, 3, 4, 4, 5, 1, 1,
+	1, 3, 1, 1, 1, 1, 1, 2, 1, 1,
+	1, 3, 1, 3, 4, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	1, 1, 1, 1, 1, 1, 1, 2, 1, 1,
-	1, 1, 1, 1, 1, 1, 1, 4, 1, 3,
-	4, 4, 1, 2, 1, 1, 4, 1, 4, 6,
-	1, 1, 3, 1, 1, 1, 1, 1, 1, 2,
-	1, 1, 1, 3, 5, 3, 1, 2, 2, 5,
-	1, 3, 4, 4, 2, 1, 3, 5, 4, 1,
-	2, 2, 0, 1, 4, 6, 6, 1, 2, 1,
-	3, 1, 1, 4, 0, 2, 1, 3, 1, 2,
-	3, 3, 3, 5, 4, 3, 3, 1, 4, 4,
-	1, 4, 6, 2, 4, 1, 1, 3, 1, 4,
-	1, 3, 2, 3, 3, 4, 1, 1, 1, 1,
-	1, 0, 3, 3, 2, 3, 4, 1, 2, 1,
-	1, 1, 1, 1, 1, 4, 1, 1, 1, 1,
+	1, 1, 1, 1, 1, 1, 2, 1, 1, 1,
+	1, 1, 1, 1, 1, 1, 4, 1, 3, 4,
+	4, 1, 2, 1, 1, 4, 1, 4, 6, 1,
+	1, 3, 1, 1, 1, 1, 1, 1, 2, 1,
+	1, 1, 3, 5, 3, 1, 2, 2, 5, 1,
+	3, 4, 4, 2, 1, 3, 5, 4, 1, 2,
+	2, 0, 1, 4, 6, 6, 1, 2, 1, 3,
+	1, 1, 4, 0, 2, 1, 3, 1, 2, 3,
+	3, 3, 5, 4, 3, 3, 1, 4, 4, 1,
+	4, 6, 2, 4, 1, 1, 3, 1, 4, 1,
+	3, 2, 3, 3, 4, 1, 1, 1, 1, 1,
+	0, 3, 3, 2, 3, 4, 1, 2, 1, 1,
+	1, 1, 1, 1, 4, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	1, 1, 2, 1, 1, 2, 1, 4, 4, 4,
-	4, 4, 4, 4, 4, 4, 1, 1, 1, 3,
-	5, 1, 1, 1, 2, 1, 3, 1, 1, 3,
-	1, 1, 2, 1, 2, 1, 1, 1, 1, 1,
-	3, 1, 1, 1, 1, 1, 1, 3, 1, 2,
-	1, 2, 1, 1, 1, 1, 2, 1, 3, 3,
-	1, 1, 1, 3, 5, 1, 3, 2, 2, 1,
-	0, 1, 1, 1, 0, 2, 0, 1, 1, 3,
+	1, 2, 1, 1, 2, 1, 4, 4, 4, 4,
+	4, 4, 4, 4, 4, 1, 1, 1, 3, 5,
+	1, 1, 1, 2, 1, 3, 1, 1, 3, 1,
+	1, 2, 1, 2, 1, 1, 1, 1, 1, 3,
+	1, 1, 1, 1, 1, 1, 3, 1, 2, 1,
+	2, 1, 1, 1, 1, 2, 1, 3, 3, 1,
+	1, 1, 3, 5, 1, 3, 2, 2, 1, 0,
+	1, 1, 1, 0, 2, 0, 1, 1, 3,
 }
 
 var yyChk = [...]int16{
-	-1000, -119, -8, -3, 6, 119, -13, 26, -7, 64,
+	-1000, -117, -8, -3, 6, 119, -13, 26, -7, 64,
 	108, 63, -11, -9, -14, -10, -12, -5, 8, 7,
 	-6, 72, 78, 78, 78, 27, -11, 32, 15, 112,
-	-10, 67, 33, -44, -120, 68, 52, -95, 116, -121,
-	55, -99, -100, -101, -4, -3, -45, 6, 7, -43,
-	-40, -42, -41, -4, -45, 6, -96, -97, -98, -99,
-	42, 42, 30, -40, 15, -20, -19, -77, -46, -92,
-	-18, -73, -104, -22, -17, -21, -16, -91, -33, -78,
-	-79, -80, -81, -23, -86, -76, -90, -47, 71, 79,
-	-74, -75, 91, 56, 49, 73, 81, 89, 125, 54,
-	58, 127, -87, -4, 88, 110, 75, 92, 96, 100,
-	57, 77, 117, 82, 74, 106, 114, 118, 122, 87,
-	34, 42, -98, 84, -100, -20, 15, -48, 32, 66,
-	26, 26, 26, 104, 66, 26, 93, -48, -68, 62,
-	26, 93, -48, -68, 128, -20, 108, 64, 66, -89,
-	102, 59, 121, -103, -3, -31, -30, -35, -32, -29,
-	-34, 86, 80, -38, -5, 26, -36, -37, 8, 36,
-	-1, 109, 69, -49, -50, -51, -52, -54, -55, 55,
-	-57, -56, -59, -58, -61, -62, -65, 32, -63, -64,
-	-68, -66, -67, -31, -69, -20, 126, -71, 65, 26,
-	-105, -106, -123, -24, 17, -5, -115, -116, -118, -113,
-	-5, -114, -113, -5, 27, -123, -85, -83, -82, -24,
-	103, -20, -24, 93, 93, -48, 27, -123, -85, -20,
-	-24, 93, 93, 83, -20, -20, -88, -39, -15, 8,
-	-3, -45, -102, -29, -15, -28, -15, -27, -14, -25,
-	-26, 7, -5, 8, 31, 25, 8, -1, -122, 45,
-	30, -60, 60, -128, 44, 94, -129, 46, 53, -60,
+	-10, 67, 33, -44, -118, 68, 52, -95, 116, -119,
+	55, -98, -99, -100, -4, -3, -45, 6, 7, -43,
+	-40, -42, -41, -4, -45, 6, -96, -97, -98, 42,
+	42, 30, -40, 15, -20, -19, -77, -46, -92, -18,
+	-73, -102, -22, -17, -21, -16, -91, -33, -78, -79,
+	-80, -81, -23, -86, -76, -90, -47, 71, 79, -74,
+	-75, 91, 56, 49, 73, 81, 89, 125, 54, 58,
+	127, -87, -4, 88, 110, 75, 92, 96, 100, 57,
+	77, 117, 82, 74, 106, 114, 118, 122, 87, 34,
+	42, 84, -99, -20, 15, -48, 32, 66, 26, 26,
+	26, 104, 66, 26, 93, -48, -68, 62, 26, 93,
+	-48, -68, 128, -20, 108, 64, 66, -89, 102, 59,
+	121, -3, -31, -30, -35, -32, -29, -34, 86, 80,
+	-38, -5, 26, -36, -37, 8, 36, -1, 109, 69,
+	-49, -50, -51, -52, -54, -55, 55, -57, -56, -59,
+	-58, -61, -62, -65, 32, -63, -64, -68, -66, -67,
+	-31, -69, -20, 126, -71, 65, 26, -103, -104, -121,
+	-24, 17, -5, -113, -114, -116, -111, -5, -112, -111,
+	-5, 27, -121, -85, -83, -82, -24, 103, -20, -24,
+	93, 93, -48, 27, -121, -85, -20, -24, 93, 93,
+	83, -20, -20, -88, -39, -15, 8, -3, -45, -101,
+	-97, -29, -15, -3, -45, -28, -15, -27, -14, -25,
+	-26, 7, -5, 8, 31, 25, 8, -1, -120, 45,
+	30, -60, 60, -126, 44, 94, -127, 46, 53, -60,
 	-54, 16, 99, 103, 28, -93, -94, -5, 27, 30,
-	-124, 30, -122, -20, 27, 30, 32, 27, 30, -124,
+	-122, 30, -120, -20, 27, 30, 32, 27, 30, -122,
 	30, 27, 30, 97, 115, 93, -20, -24, -20, -24,
-	-124, 27, -20, -24, -20, -24, -5, 35, 31, 27,
-	-28, -15, -28, 32, 8, -2, 8, 36, 33, -139,
-	-38, -15, -20, 8, 36, 17, -61, -57, -59, 33,
-	-70, -72, 28, -31, 61, -130, -48, -131, -132, -133,
-	26, 27, 30, 32, -123, -24, 17, -109, -108, -24,
-	17, -118, -38, -15, -113, 27, -123, -82, -31, -20,
-	27, -45, 27, -25, -15, 25, 8, 37, 8, 30,
-	-72, -134, 17, -135, -5, -94, -39, -15, -124, 30,
-	-124, 30, -122, 33, 33, -124, 30, -125, 33, -2,
-	-31, -53, -54, 27, 30, 30, -136, -137, -48, 33,
-	33, -109, -108, 30, 17, -110, -111, -82, -112, 18,
-	30, -134, -134, -138, 113, 47, 97, -124, -117, -116,
-	-124, 30, -126, 8, -83, 27, 30, -111, -83, 37,
-	30, 19,
+	-122, 27, -20, -24, -20, -24, -5, 35, 31, -97,
+	27, -28, -15, -28, 32, 8, -2, 8, 36, 33,
+	-137, -38, -15, -20, 8, 36, 17, -61, -57, -59,
+	33, -70, -72, 28, -31, 61, -128, -48, -129, -130,
+	-131, 26, 27, 30, 32, -121, -24, 17, -107, -106,
+	-24, 17, -116, -38, -15, -111, 27, -121, -82, -31,
+	-20, 27, -45, 27, -25, -15, 25, 8, 37, 8,
+	30, -72, -132, 17, -133, -5, -94, -39, -15, -122,
+	30, -122, 30, -120, 33, 33, -122, 30, -123, 33,
+	-2, -31, -53, -54, 27, 30, 30, -134, -135, -48,
+	33, 33, -107, -106, 30, 17, -108, -109, -82, -110,
+	18, 30, -132, -132, -136, 113, 47, 97, -122, -115,
+	-114, -122, 30, -124, 8, -83, 27, 30, -109, -83,
+	37, 30, 19,
 }
 
 var yyDef = [...]int16{
 	0, -2, 0, 9, 3, 20, 7, 0, 22, 0,
-	0, 0, 0, 10, 12, 13, 14, 196, 15, 6,
+	0, 0, 0, 10, 12, 13, 14, 195, 15, 6,
 	0, 0, 17, 18, 19, 8, 11, 0, 0, 21,
 	0, -2, 16, 0, 31, 29, 1, 0, 33, 0,
-	0, 28, 41, 43, 44, 45, 46, -2, 4, 23,
-	47, 49, 50, 0, 0, 2, 0, 32, 34, 0,
-	25, 26, 0, 48, 0, 0, 56, 57, 58, 59,
+	0, 28, 40, 42, 43, 44, 45, -2, 4, 23,
+	46, 48, 49, 0, 0, 2, 0, 32, 0, 25,
+	26, 0, 47, 0, 0, 55, 56, 57, 58, 59,
 	60, 61, 62, 63, 64, 65, 66, 67, 68, 69,
-	70, 71, 72, 73, 74, 75, 76, 216, 0, 83,
-	197, 198, 0, 0, 86, 125, 0, 0, 105, 0,
-	0, 157, 0, 51, 213, 214, 199, 200, 201, 202,
-	203, 204, 205, 206, 207, 208, 209, 210, 211, 0,
-	181, 30, 35, 0, 42, 54, 0, 215, 0, 118,
-	0, 0, 0, 184, 124, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 172, 0, 0, 212, 0,
-	178, 179, 180, 36, 40, 55, 78, 79, 80, 81,
-	82, 84, 85, 94, 95, 0, 106, 107, 92, 0,
-	108, 110, 111, 286, 226, 227, 228, 231, -2, 0,
-	-2, 0, 238, 0, -2, 0, 249, 0, 251, 252,
-	253, 254, 255, -2, 0, 267, 0, 258, 263, 0,
-	0, 160, 132, 170, 129, 0, 0, 97, 101, 103,
-	104, 0, 88, 0, 126, 132, 0, 133, 146, 148,
-	0, 182, 183, 0, 0, 266, 152, 132, 0, 155,
-	156, 0, 0, 0, 173, 174, 0, 176, 177, 5,
-	0, 53, 37, 38, 39, 0, 192, 187, 189, 190,
-	191, -2, 196, 193, 0, 0, 93, 109, 0, 0,
-	0, 234, 0, 0, 245, 246, 0, 247, 248, 242,
-	0, 0, 0, 0, 259, 0, 120, 0, 159, 0,
-	163, 0, 130, 77, 96, 0, 0, 87, 0, 0,
-	0, 128, 0, 149, 0, 0, 219, 223, 220, 224,
-	0, 154, 217, 221, 218, 222, 158, 175, 0, 185,
-	0, 192, 188, 0, 113, 115, 116, 0, 225, 285,
-	287, 288, 0, 92, 0, 229, 244, -2, 239, 250,
-	257, 260, 0, 264, 265, 268, 270, 269, 271, 272,
-	0, 119, 0, 0, 132, 171, 131, 132, 166, 168,
-	286, 102, 0, 0, 89, 127, 132, 147, 150, 151,
-	153, 52, 186, 0, 194, 0, 117, 0, 93, 0,
-	261, 0, 0, 275, 280, 121, 0, 0, 161, 0,
-	164, 0, 98, 90, 91, 134, 0, 0, 195, 114,
-	289, 230, 232, 273, 0, 0, 277, 284, 279, 122,
-	123, 132, 167, 0, -2, 132, 139, 141, 142, 144,
-	0, 0, 276, 278, 281, 282, 283, 162, 99, 100,
-	135, 0, 0, 0, 136, 274, 0, 140, 0, 145,
-	0, 143,
+	70, 71, 72, 73, 74, 75, 215, 0, 82, 196,
+	197, 0, 0, 85, 124, 0, 0, 104, 0, 0,
+	156, 0, 50, 212, 213, 198, 199, 200, 201, 202,
+	203, 204, 205, 206, 207, 208, 209, 210, 0, 180,
+	30, 0, 41, 53, 0, 214, 0, 117, 0, 0,
+	0, 183, 123, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 171, 0, 0, 211, 0, 177, 178,
+	179, 34, 54, 77, 78, 79, 80, 81, 83, 84,
+	93, 94, 0, 105, 106, 91, 0, 107, 109, 110,
+	285, 225, 226, 227, 230, -2, 0, -2, 0, 237,
+	0, -2, 0, 248, 0, 250, 251, 252, 253, 254,
+	-2, 0, 266, 0, 257, 262, 0, 0, 159, 131,
+	169, 128, 0, 0, 96, 100, 102, 103, 0, 87,
+	0, 125, 131, 0, 132, 145, 147, 0, 181, 182,
+	0, 0, 265, 151, 131, 0, 154, 155, 0, 0,
+	0, 172, 173, 0, 175, 176, 5, 0, 52, 35,
+	36, 38, 39, 44, -2, 0, 191, 186, 188, 189,
+	190, -2, 195, 192, 0, 0, 92, 108, 0, 0,
+	0, 233, 0, 0, 244, 245, 0, 246, 247, 241,
+	0, 0, 0, 0, 258, 0, 119, 0, 158, 0,
+	162, 0, 129, 76, 95, 0, 0, 86, 0, 0,
+	0, 127, 0, 148, 0, 0, 218, 222, 219, 223,
+	0, 153, 216, 220, 217, 221, 157, 174, 0, 37,
+	184, 0, 191, 187, 0, 112, 114, 115, 0, 224,
+	284, 286, 287, 0, 91, 0, 228, 243, -2, 238,
+	249, 256, 259, 0, 263, 264, 267, 269, 268, 270,
+	271, 0, 118, 0, 0, 131, 170, 130, 131, 165,
+	167, 285, 101, 0, 0, 88, 126, 131, 146, 149,
+	150, 152, 51, 185, 0, 193, 0, 116, 0, 92,
+	0, 260, 0, 0, 274, 279, 120, 0, 0, 160,
+	0, 163, 0, 97, 89, 90, 133, 0, 0, 194,
+	113, 288, 229, 231, 272, 0, 0, 276, 283, 278,
+	121, 122, 131, 166, 0, -2, 131, 138, 140, 141,
+	143, 0, 0, 275, 277, 280, 281, 282, 161, 98,
+	99, 134, 0, 0, 0, 135, 273, 0, 139, 0,
+	144, 0, 142,
 }
 
 var yyTok1 = [...]int8{
@@ -1061,1184 +1063,1178 @@ yydefault:
 
 	case 1:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line asn1.y:341
+//line asn1.y:337
 		{
 			yylex.(*MyLexer).result = &ModuleDefinition{ModuleIdentifier: yyDollar[1].ModuleIdentifier, TagDefault: yyDollar[3].TagDefault, ExtensibilityImplied: yyDollar[4].ExtensionDefault, ModuleBody: yyDollar[7].ModuleBody}
 		}
 	case 2:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:344
+//line asn1.y:340
 		{
 			yyVAL.TypeReference = TypeReference(yyDollar[1].name)
 		}
 	case 4:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:349
+//line asn1.y:345
 		{
 			yyVAL.ValueReference = ValueReference(yyDollar[1].name)
 		}
 	case 7:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:360
+//line asn1.y:356
 		{
 			yyVAL.ModuleIdentifier = ModuleIdentifier{Reference: yyDollar[1].name, DefinitiveIdentifier: yyDollar[2].DefinitiveIdentifier}
 		}
 	case 8:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:363
+//line asn1.y:359
 		{
 			yyVAL.DefinitiveIdentifier = DefinitiveIdentifier(yyDollar[2].DefinitiveObjIdComponentList)
 		}
 	case 9:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:364
+//line asn1.y:360
 		{
 			yyVAL.DefinitiveIdentifier = DefinitiveIdentifier(make([]DefinitiveObjIdComponent, 0))
 		}
 	case 10:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:367
+//line asn1.y:363
 		{
 			yyVAL.DefinitiveObjIdComponentList = append(make([]DefinitiveObjIdComponent, 0), yyDollar[1].DefinitiveObjIdComponent)
 		}
 	case 11:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:368
+//line asn1.y:364
 		{
 			yyVAL.DefinitiveObjIdComponentList = append(append(make([]DefinitiveObjIdComponent, 0), yyDollar[1].DefinitiveObjIdComponent), yyDollar[2].DefinitiveObjIdComponentList...)
 		}
 	case 12:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:371
+//line asn1.y:367
 		{
 			yyVAL.DefinitiveObjIdComponent = DefinitiveObjIdComponent{Name: yyDollar[1].name}
 		}
 	case 13:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:372
+//line asn1.y:368
 		{
 			yyVAL.DefinitiveObjIdComponent = DefinitiveObjIdComponent{Id: yyDollar[1].Number.IntValue()}
 		}
 	case 14:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:373
+//line asn1.y:369
 		{
 			yyVAL.DefinitiveObjIdComponent = yyDollar[1].DefinitiveObjIdComponent
 		}
 	case 15:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:376
+//line asn1.y:372
 		{
 			yyVAL.Number = yyDollar[1].Number
 		}
 	case 16:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:380
+//line asn1.y:376
 		{
 			yyVAL.DefinitiveObjIdComponent = DefinitiveObjIdComponent{Name: yyDollar[1].name, Id: yyDollar[3].Number.IntValue()}
 		}
 	case 17:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:383
+//line asn1.y:379
 		{
 			yyVAL.TagDefault = TAGS_EXPLICIT
 		}
 	case 18:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:384
+//line asn1.y:380
 		{
 			yyVAL.TagDefault = TAGS_IMPLICIT
 		}
 	case 19:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:385
+//line asn1.y:381
 		{
 			yyVAL.TagDefault = TAGS_AUTOMATIC
 		}
 	case 20:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:386
+//line asn1.y:382
 		{
 			yyVAL.TagDefault = TAGS_EXPLICIT
 		}
 	case 21:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:389
+//line asn1.y:385
 		{
 			yyVAL.ExtensionDefault = true
 		}
 	case 22:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:390
+//line asn1.y:386
 		{
 			yyVAL.ExtensionDefault = false
 		}
 	case 23:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:393
+//line asn1.y:389
 		{
 			yyVAL.ModuleBody = ModuleBody{Imports: yyDollar[2].Imports, AssignmentList: yyDollar[3].AssignmentList}
 		}
 	case 24:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:394
+//line asn1.y:390
 		{
 			yyVAL.ModuleBody = ModuleBody{}
 		}
 	case 30:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:407
+//line asn1.y:403
 		{
 			yyVAL.Imports = yyDollar[2].Imports
 		}
 	case 31:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:408
+//line asn1.y:404
 		{
 			yyVAL.Imports = make([]SymbolsFromModule, 0)
 		}
 	case 32:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:411
+//line asn1.y:407
 		{
 			yyVAL.Imports = yyDollar[1].Imports
 		}
 	case 33:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:412
+//line asn1.y:408
 		{
 			yyVAL.Imports = make([]SymbolsFromModule, 0)
 		}
 	case 34:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:415
+		yyDollar = yyS[yypt-3 : yypt+1]
+//line asn1.y:414
 		{
-			yyVAL.Imports = append(make([]SymbolsFromModule, 0), yyDollar[1].SymbolsFromModule)
+			yyVAL.Imports = []SymbolsFromModule{{yyDollar[1].SymbolList, GlobalModuleReference{yyDollar[3].name, nil}}}
 		}
 	case 35:
-		yyDollar = yyS[yypt-2 : yypt+1]
+		yyDollar = yyS[yypt-4 : yypt+1]
 //line asn1.y:416
 		{
-			yyVAL.Imports = append(yyDollar[1].Imports, yyDollar[2].SymbolsFromModule)
+			yyVAL.Imports = []SymbolsFromModule{{yyDollar[1].SymbolList, GlobalModuleReference{yyDollar[3].name, yyDollar[4].Value}}}
 		}
 	case 36:
-		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:419
+		yyDollar = yyS[yypt-4 : yypt+1]
+//line asn1.y:418
 		{
-			yyVAL.SymbolsFromModule = SymbolsFromModule{yyDollar[1].SymbolList, yyDollar[3].GlobalModuleReference}
+			yyVAL.Imports = append([]SymbolsFromModule{{yyDollar[1].SymbolList, GlobalModuleReference{yyDollar[3].name, nil}}}, yyDollar[4].Imports...)
 		}
 	case 37:
-		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:422
+		yyDollar = yyS[yypt-5 : yypt+1]
+//line asn1.y:420
 		{
-			yyVAL.GlobalModuleReference = GlobalModuleReference{yyDollar[1].name, yyDollar[2].Value}
+			yyVAL.Imports = append([]SymbolsFromModule{{yyDollar[1].SymbolList, GlobalModuleReference{yyDollar[3].name, yyDollar[4].Value}}}, yyDollar[5].Imports...)
 		}
 	case 38:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:425
+//line asn1.y:423
 		{
 			yyVAL.Value = yyDollar[1].ObjectIdentifierValue
 		}
 	case 39:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:426
+//line asn1.y:424
 		{
 			yyVAL.Value = yyDollar[1].DefinedValue
 		}
 	case 40:
-		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:427
-		{
-			yyVAL.Value = nil
-		}
-	case 41:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:430
+//line asn1.y:427
 		{
 			yyVAL.SymbolList = append(make([]Symbol, 0), yyDollar[1].Symbol)
 		}
-	case 42:
+	case 41:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:431
+//line asn1.y:428
 		{
 			yyVAL.SymbolList = append(yyDollar[1].SymbolList, yyDollar[3].Symbol)
 		}
-	case 44:
+	case 43:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:438
+//line asn1.y:435
 		{
 			yyVAL.Symbol = TypeReference(yyDollar[1].TypeReference)
 		}
-	case 45:
+	case 44:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:439
+//line asn1.y:436
 		{
 			yyVAL.Symbol = ModuleReference(yyDollar[1].name)
 		}
-	case 46:
+	case 45:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:440
+//line asn1.y:437
 		{
 			yyVAL.Symbol = ValueReference(yyDollar[1].ValueReference)
 		}
-	case 47:
+	case 46:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:446
+//line asn1.y:443
 		{
 			yyVAL.AssignmentList = AssignmentList{yyDollar[1].Assignment}
 		}
-	case 48:
+	case 47:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:447
+//line asn1.y:444
 		{
 			yyVAL.AssignmentList = append(yyDollar[1].AssignmentList, yyDollar[2].Assignment)
 		}
-	case 51:
+	case 50:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:463
+//line asn1.y:460
 		{
 			yyVAL.Type = yyDollar[1].TypeReference
 		}
-	case 52:
+	case 51:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:471
+//line asn1.y:468
 		{
 			yyVAL.DefinedValue = DefinedValue{ModuleReference(yyDollar[1].name), yyDollar[3].ValueReference}
 		}
-	case 53:
+	case 52:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:472
+//line asn1.y:469
 		{
 			yyVAL.DefinedValue = DefinedValue{ValueName: yyDollar[1].ValueReference}
 		}
-	case 54:
+	case 53:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:487
+//line asn1.y:484
 		{
 			yyVAL.Assignment = TypeAssignment{yyDollar[1].TypeReference, yyDollar[3].Type}
 		}
-	case 55:
+	case 54:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:490
+//line asn1.y:487
 		{
 			yyVAL.Assignment = ValueAssignment{yyDollar[1].ValueReference, yyDollar[2].Type, yyDollar[4].Value}
 		}
-	case 77:
+	case 76:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:537
+//line asn1.y:534
 		{
 			yyVAL.NamedType = NamedType{Identifier: Identifier(yyDollar[1].name), Type: yyDollar[2].Type}
 		}
-	case 81:
+	case 80:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:560
+//line asn1.y:557
 		{
 			yyVAL.Value = yyDollar[1].ObjectIdentifierValue
 		}
-	case 83:
+	case 82:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:573
+//line asn1.y:570
 		{
 			yyVAL.Type = BooleanType{}
 		}
-	case 84:
+	case 83:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:576
+//line asn1.y:573
 		{
 			yyVAL.Value = Boolean(true)
 		}
-	case 85:
+	case 84:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:577
+//line asn1.y:574
 		{
 			yyVAL.Value = Boolean(false)
 		}
-	case 86:
+	case 85:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:582
+//line asn1.y:579
 		{
 			yyVAL.Type = IntegerType{}
 		}
-	case 87:
+	case 86:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:583
+//line asn1.y:580
 		{
 			yyVAL.Type = IntegerType{yyDollar[3].NamedNumberList}
 		}
-	case 88:
+	case 87:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:586
+//line asn1.y:583
 		{
 			yyVAL.NamedNumberList = []NamedNumber{yyDollar[1].NamedNumber}
 		}
-	case 89:
+	case 88:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:587
+//line asn1.y:584
 		{
 			yyVAL.NamedNumberList = append(yyDollar[1].NamedNumberList, yyDollar[3].NamedNumber)
 		}
-	case 90:
+	case 89:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:590
+//line asn1.y:587
 		{
 			yyVAL.NamedNumber = NamedNumber{Identifier(yyDollar[1].name), yyDollar[3].Number}
 		}
-	case 91:
+	case 90:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:591
+//line asn1.y:588
 		{
 			yyVAL.NamedNumber = NamedNumber{Identifier(yyDollar[1].name), yyDollar[3].DefinedValue}
 		}
-	case 92:
+	case 91:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:594
+//line asn1.y:591
 		{
 			yyVAL.Number = yyDollar[1].Number
 		}
-	case 93:
+	case 92:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:595
+//line asn1.y:592
 		{
 			yyVAL.Number = yyDollar[2].Number.UnaryMinus()
 		}
-	case 94:
+	case 93:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:600
+//line asn1.y:597
 		{
 			yyVAL.Value = yyDollar[1].Number
 		}
-	case 95:
+	case 94:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:601
+//line asn1.y:598
 		{
 			yyVAL.Value = IdentifiedIntegerValue{Name: yyDollar[1].name}
 		}
-	case 96:
+	case 95:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:606
+//line asn1.y:603
 		{
 			yyVAL.Type = yyDollar[3].EnumeratedType
 		}
-	case 97:
+	case 96:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:610
+//line asn1.y:607
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration}
 		}
-	case 98:
+	case 97:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:611
+//line asn1.y:608
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration}
 		}
-	case 99:
+	case 98:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line asn1.y:612
+//line asn1.y:609
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration, AdditionalEnumeration: yyDollar[6].Enumeration}
 		}
-	case 101:
+	case 100:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:618
+//line asn1.y:615
 		{
 			yyVAL.Enumeration = []EnumerationItem{yyDollar[1].EnumerationItem}
 		}
-	case 102:
+	case 101:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:619
+//line asn1.y:616
 		{
 			yyVAL.Enumeration = append(yyDollar[1].Enumeration, yyDollar[3].EnumerationItem)
 		}
-	case 103:
+	case 102:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:622
+//line asn1.y:619
 		{
 			yyVAL.EnumerationItem = yyDollar[1].NamedNumber
 		}
-	case 104:
+	case 103:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:623
+//line asn1.y:620
 		{
 			yyVAL.EnumerationItem = Identifier(yyDollar[1].name)
 		}
-	case 105:
+	case 104:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:628
+//line asn1.y:625
 		{
 			yyVAL.Type = RealType{}
 		}
-	case 108:
+	case 107:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:637
+//line asn1.y:634
 		{
 			yyVAL.Value = yyDollar[1].Real
 		}
-	case 109:
+	case 108:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:638
+//line asn1.y:635
 		{
 			yyVAL.Value = yyDollar[2].Real.UnaryMinus()
 		}
-	case 110:
+	case 109:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:642
+//line asn1.y:639
 		{
 			yyVAL.Value = Real(math.Inf(1))
 		}
-	case 111:
+	case 110:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:643
+//line asn1.y:640
 		{
 			yyVAL.Value = Real(math.Inf(-1))
 		}
-	case 112:
+	case 111:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:647
+//line asn1.y:644
 		{
 			yyVAL.Real = parseRealNumber(yyDollar[1].Number, 0, 0)
 		}
-	case 113:
+	case 112:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:648
+//line asn1.y:645
 		{
 			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, yyDollar[3].numberRepr, 0)
 		}
-	case 114:
+	case 113:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:649
+//line asn1.y:646
 		{
 			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, yyDollar[3].numberRepr, yyDollar[5].Number)
 		}
-	case 115:
+	case 114:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:650
+//line asn1.y:647
 		{
 			yyVAL.Real = parseRealNumber(yyDollar[1].Number, 0, yyDollar[3].Number)
 		}
-	case 117:
+	case 116:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:654
+//line asn1.y:651
 		{
 			yyVAL.Number = Number(-int(yyDollar[2].Number))
 		}
-	case 118:
+	case 117:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:659
+//line asn1.y:656
 		{
 			yyVAL.Type = BitStringType{}
 		}
-	case 119:
+	case 118:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:660
+//line asn1.y:657
 		{
 			yyVAL.Type = BitStringType{NamedBits: yyDollar[4].NamedBitList}
 		}
-	case 120:
+	case 119:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:663
+//line asn1.y:660
 		{
 			yyVAL.NamedBitList = append(make([]NamedBit, 0), yyDollar[1].NamedBit)
 		}
-	case 121:
+	case 120:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:664
+//line asn1.y:661
 		{
 			yyVAL.NamedBitList = append(yyDollar[1].NamedBitList, yyDollar[3].NamedBit)
 		}
-	case 122:
+	case 121:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:667
+//line asn1.y:664
 		{
 			yyVAL.NamedBit = NamedBit{Name: Identifier(yyDollar[1].name), Index: yyDollar[3].Number}
 		}
-	case 123:
+	case 122:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:668
+//line asn1.y:665
 		{
 			yyVAL.NamedBit = NamedBit{Name: Identifier(yyDollar[1].name), Index: yyDollar[3].DefinedValue}
 		}
-	case 124:
+	case 123:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:673
+//line asn1.y:670
 		{
 			yyVAL.Type = OctetStringType{}
 		}
-	case 125:
+	case 124:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:678
+//line asn1.y:675
 		{
 			yyVAL.Type = NullType{}
 		}
-	case 126:
+	case 125:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:683
+//line asn1.y:680
 		{
 			yyVAL.Type = SequenceType{}
 		}
-	case 127:
+	case 126:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:684
+//line asn1.y:681
 		{
 			yyVAL.Type = SequenceType{}
 		}
-	case 128:
+	case 127:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:685
+//line asn1.y:682
 		{
 			yyVAL.Type = SequenceType{Components: append(yyDollar[3].ComponentTypeLists.Components, yyDollar[3].ComponentTypeLists.TrailingComponents...), ExtensionAdditions: yyDollar[3].ComponentTypeLists.ExtensionAdditions}
 		}
-	case 133:
+	case 132:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:697
+//line asn1.y:694
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList}
 		}
-	case 134:
+	case 133:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:698
+//line asn1.y:695
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList}
 		}
-	case 135:
+	case 134:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line asn1.y:699
+//line asn1.y:696
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList, ExtensionAdditions: yyDollar[5].ExtensionAdditions}
 		}
-	case 136:
+	case 135:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line asn1.y:700
+//line asn1.y:697
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList, TrailingComponents: yyDollar[6].ComponentTypeList}
 		}
-	case 139:
+	case 138:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:713
+//line asn1.y:710
 		{
 			yyVAL.ExtensionAdditions = append([]ExtensionAddition{}, yyDollar[1].ExtensionAdditions...)
 		}
-	case 140:
+	case 139:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:714
+//line asn1.y:711
 		{
 			yyVAL.ExtensionAdditions = append(yyDollar[1].ExtensionAdditions, yyDollar[3].ExtensionAdditions...)
 		}
-	case 141:
+	case 140:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:717
+//line asn1.y:714
 		{
 			yyVAL.ExtensionAdditions = []ExtensionAddition{yyDollar[1].ComponentType}
 		}
-	case 142:
+	case 141:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:718
+//line asn1.y:715
 		{
 			yyVAL.ExtensionAdditions = yyDollar[1].ExtensionAdditions
 		}
-	case 143:
+	case 142:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:723
+//line asn1.y:720
 		{
 			yyVAL.ExtensionAdditions = make([]ExtensionAddition, 0)
 			for _, component := range yyDollar[3].ComponentTypeList {
 				yyVAL.ExtensionAdditions = append(yyVAL.ExtensionAdditions, component)
 			}
 		}
-	case 146:
+	case 145:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:730
+//line asn1.y:727
 		{
 			yyVAL.ComponentTypeList = append(make(ComponentTypeList, 0), yyDollar[1].ComponentType)
 		}
-	case 147:
+	case 146:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:731
+//line asn1.y:728
 		{
 			yyVAL.ComponentTypeList = append(yyDollar[1].ComponentTypeList, yyDollar[3].ComponentType)
 		}
-	case 148:
+	case 147:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:734
+//line asn1.y:731
 		{
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType}
 		}
-	case 149:
+	case 148:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:735
+//line asn1.y:732
 		{
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, IsOptional: true}
 		}
-	case 150:
+	case 149:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:736
+//line asn1.y:733
 		{
 			cpy := yyDollar[3].Value
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, Default: &cpy}
 		}
-	case 151:
+	case 150:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:737
+//line asn1.y:734
 		{
 			yyVAL.ComponentType = ComponentsOfComponentType{Type: yyDollar[3].Type}
 		}
-	case 152:
+	case 151:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:742
+//line asn1.y:739
 		{
 			yyVAL.Type = SetType{}
 		}
-	case 153:
+	case 152:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:743
+//line asn1.y:740
 		{
 			yyVAL.Type = SetType{}
 		}
-	case 154:
+	case 153:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:744
+//line asn1.y:741
 		{
 			yyVAL.Type = SetType{Components: append(yyDollar[3].ComponentTypeLists.Components, yyDollar[3].ComponentTypeLists.TrailingComponents...), ExtensionAdditions: yyDollar[3].ComponentTypeLists.ExtensionAdditions}
 		}
-	case 155:
+	case 154:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:749
+//line asn1.y:746
 		{
 			yyVAL.Type = SetOfType{yyDollar[3].Type}
 		}
-	case 156:
+	case 155:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:750
+//line asn1.y:747
 		{
 			yyVAL.Type = SetOfType{yyDollar[3].NamedType}
 		}
-	case 157:
+	case 156:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:754
+//line asn1.y:751
 		{
 			yyVAL.Type = AnyType{}
 		}
-	case 158:
+	case 157:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:755
+//line asn1.y:752
 		{
 			yyVAL.Type = AnyType{Identifier(yyDollar[4].name)}
 		}
-	case 159:
+	case 158:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:760
+//line asn1.y:757
 		{
 			yyVAL.Type = yyDollar[3].ChoiceType
 		}
-	case 160:
+	case 159:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:763
+//line asn1.y:760
 		{
 			yyVAL.ChoiceType = ChoiceType{AlternativeTypeList: yyDollar[1].AlternativeTypeList}
 		}
-	case 161:
+	case 160:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:764
+//line asn1.y:761
 		{
 			yyVAL.ChoiceType = ChoiceType{yyDollar[1].AlternativeTypeList, make([]ChoiceExtension, 0)}
 		}
-	case 162:
+	case 161:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line asn1.y:765
+//line asn1.y:762
 		{
 			yyVAL.ChoiceType = ChoiceType{yyDollar[1].AlternativeTypeList, yyDollar[5].ExtensionAdditionAlternativesList}
 		}
-	case 163:
+	case 162:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:766
+//line asn1.y:763
 		{
 			yyVAL.ChoiceType = ChoiceType{nil, make([]ChoiceExtension, 0)}
 		}
-	case 164:
+	case 163:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:767
+//line asn1.y:764
 		{
 			yyVAL.ChoiceType = ChoiceType{nil, yyDollar[3].ExtensionAdditionAlternativesList}
 		}
-	case 166:
+	case 165:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:774
+//line asn1.y:771
 		{
 			yyVAL.ExtensionAdditionAlternativesList = append(make([]ChoiceExtension, 0), yyDollar[1].ExtensionAdditionAlternative)
 		}
-	case 167:
+	case 166:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:775
+//line asn1.y:772
 		{
 			yyVAL.ExtensionAdditionAlternativesList = append(yyDollar[1].ExtensionAdditionAlternativesList, yyDollar[3].ExtensionAdditionAlternative)
 		}
-	case 168:
+	case 167:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:779
+//line asn1.y:776
 		{
 			yyVAL.ExtensionAdditionAlternative = yyDollar[1].NamedType
 		}
-	case 170:
+	case 169:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:786
+//line asn1.y:783
 		{
 			yyVAL.AlternativeTypeList = append(make([]NamedType, 0), yyDollar[1].NamedType)
 		}
-	case 171:
+	case 170:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:787
+//line asn1.y:784
 		{
 			yyVAL.AlternativeTypeList = append(yyDollar[1].AlternativeTypeList, yyDollar[3].NamedType)
 		}
-	case 172:
+	case 171:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:792
+//line asn1.y:789
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[2].Type}
 		}
-	case 173:
+	case 172:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:793
+//line asn1.y:790
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[3].Type, TagType: TAGS_IMPLICIT, HasTagType: true}
 		}
-	case 174:
+	case 173:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:794
+//line asn1.y:791
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[3].Type, TagType: TAGS_EXPLICIT, HasTagType: true}
 		}
-	case 175:
+	case 174:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:797
+//line asn1.y:794
 		{
 			yyVAL.Tag = Tag{Class: yyDollar[2].Class, ClassNumber: yyDollar[3].Value}
 		}
-	case 176:
+	case 175:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:800
+//line asn1.y:797
 		{
 			yyVAL.Value = yyDollar[1].Number
 		}
-	case 177:
+	case 176:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:801
+//line asn1.y:798
 		{
 			yyVAL.Value = yyDollar[1].DefinedValue
 		}
-	case 178:
+	case 177:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:804
+//line asn1.y:801
 		{
 			yyVAL.Class = CLASS_UNIVERSAL
 		}
-	case 179:
+	case 178:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:805
+//line asn1.y:802
 		{
 			yyVAL.Class = CLASS_APPLICATION
 		}
-	case 180:
+	case 179:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:806
+//line asn1.y:803
 		{
 			yyVAL.Class = CLASS_PRIVATE
 		}
-	case 181:
+	case 180:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:807
+//line asn1.y:804
 		{
 			yyVAL.Class = CLASS_CONTEXT_SPECIFIC
 		}
-	case 182:
+	case 181:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:812
+//line asn1.y:809
 		{
 			yyVAL.Type = SequenceOfType{yyDollar[3].Type}
 		}
-	case 183:
+	case 182:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:813
+//line asn1.y:810
 		{
 			yyVAL.Type = SequenceOfType{yyDollar[3].NamedType}
 		}
-	case 184:
+	case 183:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:818
+//line asn1.y:815
 		{
 			yyVAL.Type = ObjectIdentifierType{}
 		}
-	case 185:
+	case 184:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:823
+//line asn1.y:820
 		{
 			yyVAL.ObjectIdentifierValue = yyDollar[2].ObjectIdentifierValue
 		}
-	case 186:
+	case 185:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:824
+//line asn1.y:821
 		{
 			cpy := yyDollar[2].DefinedValue
 			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{ObjectIdElement{Reference: &cpy}}, yyDollar[3].ObjectIdentifierValue...)
 		}
-	case 187:
+	case 186:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:827
+//line asn1.y:824
 		{
 			yyVAL.ObjectIdentifierValue = ObjectIdentifierValue{yyDollar[1].ObjectIdElement}
 		}
-	case 188:
+	case 187:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:828
+//line asn1.y:825
 		{
 			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{yyDollar[1].ObjectIdElement}, yyDollar[2].ObjectIdentifierValue...)
 		}
-	case 189:
+	case 188:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:831
+//line asn1.y:828
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{Name: yyDollar[1].name}
 		}
-	case 192:
+	case 191:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:834
+//line asn1.y:831
 		{
 			cpy := yyDollar[1].DefinedValue
 			yyVAL.ObjectIdElement = ObjectIdElement{Reference: &cpy}
 		}
-	case 193:
+	case 192:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:837
+//line asn1.y:834
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{ID: yyDollar[1].Number.IntValue()}
 		}
-	case 194:
+	case 193:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:838
+//line asn1.y:835
 		{
 			cpy := yyDollar[1].DefinedValue
 			yyVAL.ObjectIdElement = ObjectIdElement{Reference: &cpy}
 		}
-	case 195:
+	case 194:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:842
+//line asn1.y:839
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{Name: yyDollar[1].name, ID: yyDollar[3].ObjectIdElement.ID, Reference: yyDollar[3].ObjectIdElement.Reference}
 		}
-	case 199:
+	case 198:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:854
+//line asn1.y:851
 		{
 			yyVAL.Type = RestrictedStringType{LexType: BMPString}
 		}
-	case 200:
+	case 199:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:855
+//line asn1.y:852
 		{
 			yyVAL.Type = RestrictedStringType{LexType: GeneralString}
 		}
-	case 201:
+	case 200:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:856
+//line asn1.y:853
 		{
 			yyVAL.Type = RestrictedStringType{LexType: GraphicString}
 		}
-	case 202:
+	case 201:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:857
+//line asn1.y:854
 		{
 			yyVAL.Type = RestrictedStringType{LexType: IA5String}
 		}
-	case 203:
+	case 202:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:858
+//line asn1.y:855
 		{
 			yyVAL.Type = RestrictedStringType{LexType: ISO646String}
 		}
-	case 204:
+	case 203:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:859
+//line asn1.y:856
 		{
 			yyVAL.Type = RestrictedStringType{LexType: NumericString}
 		}
-	case 205:
+	case 204:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:860
+//line asn1.y:857
 		{
 			yyVAL.Type = RestrictedStringType{LexType: PrintableString}
 		}
-	case 206:
+	case 205:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:861
+//line asn1.y:858
 		{
 			yyVAL.Type = RestrictedStringType{LexType: TeletexString}
 		}
-	case 207:
+	case 206:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:862
+//line asn1.y:859
 		{
 			yyVAL.Type = RestrictedStringType{LexType: T61String}
 		}
-	case 208:
+	case 207:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:863
+//line asn1.y:860
 		{
 			yyVAL.Type = RestrictedStringType{LexType: UniversalString}
 		}
-	case 209:
+	case 208:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:864
+//line asn1.y:861
 		{
 			yyVAL.Type = RestrictedStringType{LexType: UTF8String}
 		}
-	case 210:
+	case 209:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:865
+//line asn1.y:862
 		{
 			yyVAL.Type = RestrictedStringType{LexType: VideotexString}
 		}
-	case 211:
+	case 210:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:866
+//line asn1.y:863
 		{
 			yyVAL.Type = RestrictedStringType{LexType: VisibleString}
 		}
-	case 212:
+	case 211:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:871
+//line asn1.y:868
 		{
 			yyVAL.Type = CharacterStringType{}
 		}
-	case 213:
+	case 212:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:876
+//line asn1.y:873
 		{
 			yyVAL.Type = TypeReference("GeneralizedTime")
 		}
-	case 214:
+	case 213:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:877
+//line asn1.y:874
 		{
 			yyVAL.Type = TypeReference("UTCTime")
 		}
-	case 215:
+	case 214:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:882
+//line asn1.y:879
 		{
 			yyVAL.Type = ConstraintedType{yyDollar[1].Type, yyDollar[2].Constraint}
 		}
-	case 217:
+	case 216:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:888
+//line asn1.y:885
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].Type}, yyDollar[2].Constraint}
 		}
-	case 218:
+	case 217:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:889
+//line asn1.y:886
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].Type}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
-	case 219:
+	case 218:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:890
+//line asn1.y:887
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].Type}, yyDollar[2].Constraint}
 		}
-	case 220:
+	case 219:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:891
+//line asn1.y:888
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].Type}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
-	case 221:
+	case 220:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:892
+//line asn1.y:889
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].NamedType}, yyDollar[2].Constraint}
 		}
-	case 222:
+	case 221:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:893
+//line asn1.y:890
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].NamedType}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
-	case 223:
+	case 222:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:894
+//line asn1.y:891
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].NamedType}, yyDollar[2].Constraint}
 		}
-	case 224:
+	case 223:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:895
+//line asn1.y:892
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].NamedType}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
-	case 225:
+	case 224:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:900
+//line asn1.y:897
 		{
 			yyVAL.Constraint = Constraint{ConstraintSpec: yyDollar[2].ConstraintSpec}
 		}
-	case 226:
+	case 225:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:903
+//line asn1.y:900
 		{
 			yyVAL.ConstraintSpec = yyDollar[1].SubtypeConstraint
 		}
-	case 229:
+	case 228:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:913
+//line asn1.y:910
 		{
 			yyVAL.SubtypeConstraint = yyDollar[1].SubtypeConstraint
 		}
-	case 230:
+	case 229:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:914
+//line asn1.y:911
 		{
 			yyVAL.SubtypeConstraint = append(yyDollar[1].SubtypeConstraint, yyDollar[5].ElementSetSpec)
 		}
-	case 231:
+	case 230:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:917
+//line asn1.y:914
 		{
 			yyVAL.SubtypeConstraint = SubtypeConstraint{yyDollar[1].ElementSetSpec}
 		}
-	case 233:
+	case 232:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:923
+//line asn1.y:920
 		{
 			yyVAL.ElementSetSpec = yyDollar[1].Unions
 		}
-	case 234:
+	case 233:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:924
+//line asn1.y:921
 		{
 			yyVAL.ElementSetSpec = yyDollar[2].Exclusions
 		}
-	case 235:
+	case 234:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:927
+//line asn1.y:924
 		{
 			yyVAL.Unions = Unions{yyDollar[1].Intersections}
 		}
-	case 236:
+	case 235:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:928
+//line asn1.y:925
 		{
 			yyVAL.Unions = append(yyDollar[1].Unions, yyDollar[3].Intersections)
 		}
-	case 238:
+	case 237:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:934
+//line asn1.y:931
 		{
 			yyVAL.Intersections = Intersections{yyDollar[1].IntersectionElements}
 		}
-	case 239:
+	case 238:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:935
+//line asn1.y:932
 		{
 			yyVAL.Intersections = append(yyDollar[1].Intersections, yyDollar[3].IntersectionElements)
 		}
-	case 241:
+	case 240:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:941
+//line asn1.y:938
 		{
 			yyVAL.IntersectionElements = IntersectionElements{Elements: yyDollar[1].Elements}
 		}
-	case 242:
+	case 241:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:942
+//line asn1.y:939
 		{
 			yyVAL.IntersectionElements = IntersectionElements{Elements: yyDollar[1].Elements, Exclusions: yyDollar[2].Exclusions}
 		}
-	case 244:
+	case 243:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:948
+//line asn1.y:945
 		{
 			yyVAL.Exclusions = Exclusions{yyDollar[2].Elements}
 		}
-	case 249:
+	case 248:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:957
+//line asn1.y:954
 		{
 			yyVAL.Elements = yyDollar[1].Elements
 		}
-	case 250:
+	case 249:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:959
+//line asn1.y:956
 		{
 			yyVAL.Elements = yyDollar[2].ElementSetSpec
 		}
-	case 256:
+	case 255:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:974
+//line asn1.y:971
 		{
 			yyVAL.Elements = SingleValue{yyDollar[1].Value}
 		}
-	case 257:
+	case 256:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:979
+//line asn1.y:976
 		{
 			yyVAL.Elements = ValueRange{yyDollar[1].RangeEndpoint, yyDollar[3].RangeEndpoint}
 		}
-	case 258:
+	case 257:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:982
+//line asn1.y:979
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value}
 		}
-	case 259:
+	case 258:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:983
+//line asn1.y:980
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value, IsOpen: true}
 		}
-	case 260:
+	case 259:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:986
+//line asn1.y:983
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value}
 		}
-	case 261:
+	case 260:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:987
+//line asn1.y:984
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[2].Value, IsOpen: true}
 		}
-	case 263:
+	case 262:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:991
+//line asn1.y:988
 		{
 			yyVAL.Value = nil
 		}
-	case 265:
+	case 264:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:995
+//line asn1.y:992
 		{
 			yyVAL.Value = nil
 		}
-	case 266:
+	case 265:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:1000
+//line asn1.y:997
 		{
 			yyVAL.Elements = SizeConstraint{yyDollar[2].Constraint}
 		}
-	case 267:
+	case 266:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:1005
+//line asn1.y:1002
 		{
 			yyVAL.Elements = TypeConstraint{yyDollar[1].Type}
 		}
-	case 268:
+	case 267:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:1010
+//line asn1.y:1007
 		{
 			yyVAL.Elements = InnerTypeConstraint{}
 		}
-	case 269:
+	case 268:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:1011
+//line asn1.y:1008
 		{
 			yyVAL.Elements = InnerTypeConstraint{}
 		}
-- 
2.43.0


From df834fcc4d6ee1ffe8687462954a4381746dfe51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 20/22] fix: treat extension alternatives as alternatives of a
 CHOICE

---
 codegen.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/codegen.go b/codegen.go
index 07539df..9c2a657 100644
--- a/codegen.go
+++ b/codegen.go
@@ -364,14 +364,25 @@ func (ctx *moduleContext) generateChoiceType(t ChoiceType, isSet *bool) goast.Ex
 		ctx.requireModule("encoding/asn1")
 		return goast.NewIdent("asn1.RawValue")
 	}
-	if len(t.AlternativeTypeList) == 1 {
-		return ctx.generateTypeBody(t.AlternativeTypeList[0].Type, isSet) // optimization for X.509 edge case
+	if alternatives := choiceAlternatives(t); len(alternatives) == 1 {
+		return ctx.generateTypeBody(alternatives[0].Type, isSet) // optimization for X.509 edge case
 	}
 	return &goast.InterfaceType{Methods: &goast.FieldList{}}
 }
 
+// choiceAlternatives returns alternatives of the choice, including ones added after extension marker.
+func choiceAlternatives(t ChoiceType) []NamedType {
+	alternatives := append([]NamedType{}, t.AlternativeTypeList...)
+	for _, extension := range t.ExtensionTypes {
+		if f, ok := extension.(NamedType); ok {
+			alternatives = append(alternatives, f)
+		}
+	}
+	return alternatives
+}
+
 func (ctx *moduleContext) hasTaggedAlternatives(t ChoiceType) bool {
-	for _, f := range t.AlternativeTypeList {
+	for _, f := range choiceAlternatives(t) {
 		if ctx.taggedChoiceTypeAlternative(f.Identifier, f.Type) {
 			return true
 		}
-- 
2.43.0


From 16cd0773f8a065ddbb515a9c96ab39ad7a8240d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:35 +0000
Subject: [PATCH 21/22] fix: report named numbers that refer to undefined
 values

---
 codegen.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/codegen.go b/codegen.go
index 9c2a657..9099e5e 100644
--- a/codegen.go
+++ b/codegen.go
@@ -318,6 +318,8 @@ func (ctx *moduleContext) generateAssociatedValuesIfNeeded(reference TypeReferen
 			case DefinedValue:
 				if v.ModuleName != "" {
 					ctx.appendError(fmt.Errorf("%v.%v: value references from other modules are not supported", v.ModuleName, v.ValueName))
+				} else if !ctx.isDefinedNumber(v.ValueName) {
+					ctx.appendError(fmt.Errorf("can not resolve number %v of named number %v", v.ValueName, namedNumber.Name))
 				}
 				valueExpr = valueRefToIdent(v.ValueName)
 			}
@@ -337,6 +339,16 @@ func (ctx *moduleContext) generateAssociatedValuesIfNeeded(reference TypeReferen
 	}
 }
 
+// isDefinedNumber checks that referenced value is a number defined in the module, i.e. has a variable generated for it
+func (ctx *moduleContext) isDefinedNumber(ref ValueReference) bool {
+	assignment := ctx.lookupContext.AssignmentList.GetValue(ref.Name())
+	if assignment == nil {
+		return false
+	}
+	_, ok := assignment.Value.(Number)
+	return ok
+}
+
 func (ctx *moduleContext) isReal(t Type) bool {
 	t = ctx.removeWrapperTypes(t)
 	if reference, ok := t.(TypeReference); ok {
-- 
2.43.0


From 7924e8efa7330dbb9bb10babdeee8c6744dcc255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 22/22] fix: keep the first error of a rejected module

---
 lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lexer.go b/lexer.go
index 490f73e..4ffadcb 100644
--- a/lexer.go
+++ b/lexer.go
@@ -429,6 +429,10 @@ func (lex *MyLexer) consumeNumber(lval *yySymType) int {
 
 // Error implements yyLexer, and is used by the parser to communicate errors.
 func (lex *MyLexer) Error(e string) {
+	if lex.err != nil {
+		// parser may read on after the lexical error, and should not replace it by a following one
+		return
+	}
 	lex.err = fmt.Errorf("line %v: %v", lex.lineNo+1, e)
 }
 
-- 
2.43.0

