From 98c11d7a7e4206d1fe1fc2b9c5c13c82cc2701e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:57 +0000
Subject: [PATCH 01/63] fix: include the operands and parentheses in expression
 source ranges

Binary, unary and conditional expressions computed their range from the
ranges of their operands, which do not include grouping parentheses, and
index, splat and relative traversal expressions left out their source
expression altogether. For example the range of (a + b) * c covered only
the text "a + b) * c".
---
 hcl/hclsyntax/expression.go | 28 +++++++++++++++++++++++++---
 hcl/hclsyntax/parser.go     | 26 +++++++++++++++++++++-----
 2 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index d3f7a74..1d6419a 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -26,6 +26,28 @@ type Expression interface {
 // Assert that Expression implements hcl.Expression
 var assertExprImplExpr hcl.Expression = Expression(nil)
 
+// ParenthesesExpr represents a parenthesized expression that is the operand
+// of a traversal, index or splat operator.
+//
+// Parentheses in other positions are not represented in the AST. Here they
+// are needed in order to produce the source range of the operation.
+type ParenthesesExpr struct {
+	Expression
+	SrcRange hcl.Range
+}
+
+func (e *ParenthesesExpr) walkChildNodes(w internalWalkFunc) {
+	w(e.Expression)
+}
+
+func (e *ParenthesesExpr) Range() hcl.Range {
+	return e.SrcRange
+}
+
+func (e *ParenthesesExpr) StartRange() hcl.Range {
+	return e.SrcRange
+}
+
 // LiteralValueExpr is an expression that just always returns a given value.
 type LiteralValueExpr struct {
 	Val      cty.Value
@@ -144,7 +166,7 @@ func (e *RelativeTraversalExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diag
 }
 
 func (e *RelativeTraversalExpr) Range() hcl.Range {
-	return e.SrcRange
+	return hcl.RangeBetween(e.Source.Range(), e.SrcRange)
 }
 
 func (e *RelativeTraversalExpr) StartRange() hcl.Range {
@@ -638,7 +660,7 @@ func (e *IndexExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 }
 
 func (e *IndexExpr) Range() hcl.Range {
-	return e.SrcRange
+	return hcl.RangeBetween(e.Collection.Range(), e.SrcRange)
 }
 
 func (e *IndexExpr) StartRange() hcl.Range {
@@ -1382,7 +1404,7 @@ func (e *SplatExpr) walkChildNodes(w internalWalkFunc) {
 }
 
 func (e *SplatExpr) Range() hcl.Range {
-	return e.SrcRange
+	return hcl.RangeBetween(e.Source.Range(), e.SrcRange)
 }
 
 func (e *SplatExpr) StartRange() hcl.Range {
diff --git a/hcl/hclsyntax/parser.go b/hcl/hclsyntax/parser.go
index 772ebae..47c3a73 100644
--- a/hcl/hclsyntax/parser.go
+++ b/hcl/hclsyntax/parser.go
@@ -501,7 +501,7 @@ func (p *parser) parseTernaryConditional() (Expression, hcl.Diagnostics) {
 		TrueResult:  trueExpr,
 		FalseResult: falseExpr,
 
-		SrcRange: hcl.RangeBetween(startRange, falseExpr.Range()),
+		SrcRange: hcl.RangeBetween(startRange, p.PrevRange()),
 	}, diags
 }
 
@@ -519,12 +519,14 @@ func (p *parser) parseBinaryOps(ops []map[TokenType]*Operation) (Expression, hcl
 
 	var lhs, rhs Expression
 	var operation *Operation
+	var rhsEndRange hcl.Range
 	var diags hcl.Diagnostics
 
 	// Parse a term that might be the first operand of a binary
 	// operation or it might just be a standalone term.
 	// We won't know until we've parsed it and can look ahead
 	// to see if there's an operator token for this level.
+	startRange := p.NextRange()
 	lhs, lhsDiags := p.parseBinaryOps(remaining)
 	diags = append(diags, lhsDiags...)
 	if p.recovery && lhsDiags.HasErrors() {
@@ -553,7 +555,7 @@ func (p *parser) parseBinaryOps(ops []map[TokenType]*Operation) (Expression, hcl
 				Op:  operation,
 				RHS: rhs,
 
-				SrcRange: hcl.RangeBetween(lhs.Range(), rhs.Range()),
+				SrcRange: hcl.RangeBetween(startRange, rhsEndRange),
 			}
 		}
 
@@ -565,6 +567,7 @@ func (p *parser) parseBinaryOps(ops []map[TokenType]*Operation) (Expression, hcl
 		if p.recovery && rhsDiags.HasErrors() {
 			return lhs, diags
 		}
+		rhsEndRange = p.PrevRange()
 	}
 
 	if operation == nil {
@@ -576,12 +579,24 @@ func (p *parser) parseBinaryOps(ops []map[TokenType]*Operation) (Expression, hcl
 		Op:  operation,
 		RHS: rhs,
 
-		SrcRange: hcl.RangeBetween(lhs.Range(), rhs.Range()),
+		SrcRange: hcl.RangeBetween(startRange, rhsEndRange),
 	}, diags
 }
 
 func (p *parser) parseExpressionWithTraversals() (Expression, hcl.Diagnostics) {
+	start := p.Peek()
 	term, diags := p.parseExpressionTerm()
+	if start.Type == TokenOParen && !diags.HasErrors() {
+		switch p.Peek().Type {
+		case TokenDot, TokenOBrack:
+			// The parentheses are part of the source range of whatever
+			// traversal we're about to construct, so we must preserve them.
+			term = &ParenthesesExpr{
+				Expression: term,
+				SrcRange:   hcl.RangeBetween(start.Range, p.PrevRange()),
+			}
+		}
+	}
 	ret, moreDiags := p.parseExpressionTraversals(term)
 	diags = append(diags, moreDiags...)
 	return ret, diags
@@ -670,6 +685,7 @@ Traversal:
 				trav := make(hcl.Traversal, 0, 1)
 				var firstRange, lastRange hcl.Range
 				firstRange = p.NextRange()
+				lastRange = marker.Range
 				for p.Peek().Type == TokenDot {
 					dot := p.Read()
 
@@ -1019,7 +1035,7 @@ func (p *parser) parseExpressionTerm() (Expression, hcl.Diagnostics) {
 			Op:  OpNegate,
 			Val: operand,
 
-			SrcRange:    hcl.RangeBetween(tok.Range, operand.Range()),
+			SrcRange:    hcl.RangeBetween(tok.Range, p.PrevRange()),
 			SymbolRange: tok.Range,
 		}, diags
 
@@ -1034,7 +1050,7 @@ func (p *parser) parseExpressionTerm() (Expression, hcl.Diagnostics) {
 			Op:  OpLogicalNot,
 			Val: operand,
 
-			SrcRange:    hcl.RangeBetween(tok.Range, operand.Range()),
+			SrcRange:    hcl.RangeBetween(tok.Range, p.PrevRange()),
 			SymbolRange: tok.Range,
 		}, diags
 
-- 
2.43.0


From 32c26eb96991ef895acf0fbd3676a4088b85e840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:57 +0000
Subject: [PATCH 02/63] fix: treat a parenthesized object key as an expression

The language specification says that a key in parentheses is always
interpreted as an expression, but { (foo) = 1 } was treated as if the key
were the literal name foo.
---
 hcl/hclsyntax/expression.go |  8 ++++++--
 hcl/hclsyntax/parser.go     | 10 +++++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index 1d6419a..8a8f93f 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -826,7 +826,8 @@ func (e *ObjectConsExpr) ExprMap() []hcl.KeyValuePair {
 // which deals with the special case that a naked identifier in that position
 // must be interpreted as a literal string rather than evaluated directly.
 type ObjectConsKeyExpr struct {
-	Wrapped Expression
+	Wrapped         Expression
+	ForceNonLiteral bool
 }
 
 func (e *ObjectConsKeyExpr) literalName() string {
@@ -835,6 +836,9 @@ func (e *ObjectConsKeyExpr) literalName() string {
 	// deals with some awkward cases like the expression being the result
 	// of the keywords "null", "true" and "false" which we'd want to interpret
 	// as keys here too.
+	if e.ForceNonLiteral {
+		return ""
+	}
 	return hcl.ExprAsKeyword(e.Wrapped)
 }
 
@@ -856,7 +860,7 @@ func (e *ObjectConsKeyExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnost
 	// (This is handled at evaluation time rather than parse time because
 	// an application using static analysis _can_ accept a naked multi-step
 	// traversal here, if desired.)
-	if travExpr, isTraversal := e.Wrapped.(*ScopeTraversalExpr); isTraversal && len(travExpr.Traversal) > 1 {
+	if travExpr, isTraversal := e.Wrapped.(*ScopeTraversalExpr); isTraversal && len(travExpr.Traversal) > 1 && !e.ForceNonLiteral {
 		var diags hcl.Diagnostics
 		diags = append(diags, &hcl.Diagnostic{
 			Severity: hcl.DiagError,
diff --git a/hcl/hclsyntax/parser.go b/hcl/hclsyntax/parser.go
index 47c3a73..f25339e 100644
--- a/hcl/hclsyntax/parser.go
+++ b/hcl/hclsyntax/parser.go
@@ -1307,6 +1307,11 @@ func (p *parser) parseObjectCons() (Expression, hcl.Diagnostics) {
 			break
 		}
 
+		// Wrapping parentheses are not explicitly represented in the AST, but
+		// we want to use them here to disambiguate intepreting a mapping
+		// key as a full expression rather than just a simple name.
+		forceNonLiteral := next.Type == TokenOParen
+
 		var key Expression
 		var keyDiags hcl.Diagnostics
 		key, keyDiags = p.ParseExpression()
@@ -1323,7 +1328,10 @@ func (p *parser) parseObjectCons() (Expression, hcl.Diagnostics) {
 		// We wrap up the key expression in a special wrapper that deals
 		// with our special case that naked identifiers as object keys
 		// are interpreted as literal strings.
-		key = &ObjectConsKeyExpr{Wrapped: key}
+		key = &ObjectConsKeyExpr{
+			Wrapped:         key,
+			ForceNonLiteral: forceNonLiteral,
+		}
 
 		next = p.Peek()
 		if next.Type != TokenEqual && next.Type != TokenColon {
-- 
2.43.0


From 73089fd30a9cc730b803fed513673cd6845ecab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:43 +0000
Subject: [PATCH 03/63] fix: avoid panic when an expanded function argument is
 invalid

The argument index in an error returned from a function refers to the
argument list after expansion of the final argument, so it cannot be used to
index the list of argument expressions as written.
---
 hcl/hclsyntax/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index 8a8f93f..d23d813 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -415,7 +415,7 @@ func (e *FunctionCallExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnosti
 			} else {
 				param = varParam
 			}
-			argExpr := e.Args[i]
+			argExpr := args[i]
 
 			// TODO: we should also unpick a PathError here and show the
 			// path to the deep value where the error was detected.
-- 
2.43.0


From 4cc560e0ec31bcc56155e677856ee016d322108e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:48 +0000
Subject: [PATCH 04/63] fix: allow an unknown value of unknown type as an
 expanded argument

Expanding such a value was reported as an error even though it may turn out
to be a valid sequence, so an expression that is valid for known values was
rejected during early evaluation.
---
 hcl/hclsyntax/expression.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index d23d813..2c50e77 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -309,6 +309,10 @@ func (e *FunctionCallExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnosti
 				})
 			}
 			args = newArgs
+		case expandVal.Type() == cty.DynamicPseudoType && !expandVal.IsNull():
+			// The type of the argument is not known yet, so we can't tell
+			// how many arguments it will expand to.
+			return cty.DynamicVal, diags
 		default:
 			diags = append(diags, &hcl.Diagnostic{
 				Severity:    hcl.DiagError,
-- 
2.43.0


From e26d9dad0fc94e8714aaedaf19faae4b406ab122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:31 +0000
Subject: [PATCH 05/63] fix: avoid panic when splat results have inconsistent
 types

A nested splat applied to the elements of a list produces an empty tuple for
a null element and a single-element tuple for others, which cannot be
combined into a list value.
---
 hcl/hclsyntax/expression.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index 2c50e77..c5c7f62 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -1400,6 +1400,14 @@ func (e *SplatExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 			diags = append(diags, tyDiags...)
 			return cty.ListValEmpty(ty.ElementType()), diags
 		}
+		for _, val := range vals[1:] {
+			if !val.Type().Equals(vals[0].Type()) {
+				// A nested splat can produce results of different types
+				// for different elements, because its result type depends
+				// on whether the element is null.
+				return cty.TupleVal(vals), diags
+			}
+		}
 		return cty.ListVal(vals), diags
 	default:
 		return cty.TupleVal(vals), diags
-- 
2.43.0


From c71bda86a1cad5a24564ddbf3d5413fcaf0342d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:35 +0000
Subject: [PATCH 06/63] fix: make concurrent evaluation of splat expressions
 safe

The current element was recorded against the evaluation context given by the
caller, so two goroutines evaluating the same expression in the same context
could see each other's elements.
---
 hcl/hclsyntax/expression.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index c5c7f62..8b6c690 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -1368,11 +1368,10 @@ func (e *SplatExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 
 	vals := make([]cty.Value, 0, sourceVal.LengthInt())
 	it := sourceVal.ElementIterator()
-	if ctx == nil {
-		// we need a context to use our AnonSymbolExpr, so we'll just
-		// make an empty one here to use as a placeholder.
-		ctx = ctx.NewChild()
-	}
+	// The AnonSymbolExpr is bound per context, so we need a context of our own
+	// in order to not conflict with other concurrent evaluations of this same
+	// expression.
+	ctx = ctx.NewChild()
 	isKnown := true
 	for it.Next() {
 		_, sourceItem := it.Element()
-- 
2.43.0


From 484eb5f4825647bfdf10784f9a4496a29bb44006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:26:08 +0000
Subject: [PATCH 07/63] fix: return an empty tuple for a splat of an untyped
 null

A literal null has no type of its own, so it was mistaken for a value whose
type is not known yet and the result was an unknown value.
---
 hcl/hclsyntax/expression.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index 8b6c690..debafd7 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -1293,13 +1293,6 @@ func (e *SplatExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 	}
 
 	sourceTy := sourceVal.Type()
-	if sourceTy == cty.DynamicPseudoType {
-		// If we don't even know the _type_ of our source value yet then
-		// we'll need to defer all processing, since we can't decide our
-		// result type either.
-		return cty.DynamicVal, diags
-	}
-
 	// A "special power" of splat expressions is that they can be applied
 	// both to tuples/lists and to other values, and in the latter case
 	// the value will be treated as an implicit single-item tuple, or as
@@ -1322,6 +1315,13 @@ func (e *SplatExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 		return cty.DynamicVal, diags
 	}
 
+	if sourceTy == cty.DynamicPseudoType {
+		// If we don't even know the _type_ of our source value yet then
+		// we'll need to defer all processing, since we can't decide our
+		// result type either.
+		return cty.DynamicVal, diags
+	}
+
 	if autoUpgrade {
 		sourceVal = cty.TupleVal([]cty.Value{sourceVal})
 		sourceTy = sourceVal.Type()
-- 
2.43.0


From 1c6b2b910237c37e59a743fb95fc6b22f25b4ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:27 +0000
Subject: [PATCH 08/63] fix: defer the type of a splat while its element types
 are unknown

---
 hcl/hclsyntax/expression.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index debafd7..5186d0e 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -1401,6 +1401,12 @@ func (e *SplatExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 		}
 		for _, val := range vals[1:] {
 			if !val.Type().Equals(vals[0].Type()) {
+				for _, val := range vals {
+					if val.Type().HasDynamicTypes() {
+						// The types might yet turn out to be consistent.
+						return cty.DynamicVal, diags
+					}
+				}
 				// A nested splat can produce results of different types
 				// for different elements, because its result type depends
 				// on whether the element is null.
-- 
2.43.0


From ae3e5ed8e3af0097350636f7d92222a60f872e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:51 +0000
Subject: [PATCH 09/63] fix: set the closing range of a function call with an
 invalid argument

---
 hcl/hclsyntax/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/parser.go b/hcl/hclsyntax/parser.go
index f25339e..bd4dd14 100644
--- a/hcl/hclsyntax/parser.go
+++ b/hcl/hclsyntax/parser.go
@@ -1136,7 +1136,7 @@ Token:
 			// if there was a parse error in the argument then we've
 			// probably been left in a weird place in the token stream,
 			// so we'll bail out with a partial argument list.
-			p.recover(TokenCParen)
+			closeTok = p.recover(TokenCParen)
 			break Token
 		}
 
-- 
2.43.0


From 22a947f64372a7f9b2a2e3e401c588b8a5c5a1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:30 +0000
Subject: [PATCH 10/63] fix: set the range of an unterminated or invalid string
 literal

---
 hcl/hclsyntax/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/parser.go b/hcl/hclsyntax/parser.go
index bd4dd14..934d5d9 100644
--- a/hcl/hclsyntax/parser.go
+++ b/hcl/hclsyntax/parser.go
@@ -1714,6 +1714,7 @@ Token:
 				Subject:  &tok.Range,
 				Context:  hcl.RangeBetween(oQuote.Range, tok.Range).Ptr(),
 			})
+			cQuote = tok
 			break Token
 
 		default:
@@ -1725,7 +1726,7 @@ Token:
 				Subject:  &tok.Range,
 				Context:  hcl.RangeBetween(oQuote.Range, tok.Range).Ptr(),
 			})
-			p.recover(TokenCQuote)
+			cQuote = p.recover(TokenCQuote)
 			break Token
 
 		}
-- 
2.43.0


From 0b623ed4328633b39a33f827f2d1ac96e0ebb2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:56:47 +0000
Subject: [PATCH 11/63] fix: end a JSON string at its quote even after a
 prepended character

---
 hcl/json/scanner.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hcl/json/scanner.go b/hcl/json/scanner.go
index da72884..fe6dff8 100644
--- a/hcl/json/scanner.go
+++ b/hcl/json/scanner.go
@@ -1,6 +1,7 @@
 package json
 
 import (
+	"bytes"
 	"fmt"
 
 	"github.com/apparentlymart/go-textseg/textseg"
@@ -219,6 +220,13 @@ Byte:
 			// Ignoring error because this scanner cannot produce errors.
 			advance, _, _ := textseg.ScanGraphemeClusters(buf[i:], true)
 
+			// Some characters attach to whatever follows them, but a quote
+			// or backslash is always significant to us even when it is part
+			// of a longer grapheme cluster.
+			if sig := bytes.IndexAny(buf[i:i+advance], "\"\\"); sig > 0 {
+				advance = sig
+			}
+
 			p.Pos.Byte += advance
 			p.Pos.Column++
 			i += advance
-- 
2.43.0


From 3ba617cffbacc87ca306f8f1e79c4eac5f0834f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:02 +0000
Subject: [PATCH 12/63] fix: stop JSON error recovery at an invalid character

---
 hcl/json/parser.go | 4 ++--
 hcl/json/peeker.go | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/hcl/json/parser.go b/hcl/json/parser.go
index d368ea8..4de642f 100644
--- a/hcl/json/parser.go
+++ b/hcl/json/parser.go
@@ -119,7 +119,7 @@ func parseObject(p *peeker) (node, hcl.Diagnostics) {
 				if open <= 1 {
 					return
 				}
-			case tokenEOF:
+			case tokenEOF, tokenInvalid:
 				// Ran out of source before we were able to recover,
 				// so we'll bail here and let the caller deal with it.
 				return
@@ -270,7 +270,7 @@ func parseArray(p *peeker) (node, hcl.Diagnostics) {
 				if open <= 1 {
 					return
 				}
-			case tokenEOF:
+			case tokenEOF, tokenInvalid:
 				// Ran out of source before we were able to recover,
 				// so we'll bail here and let the caller deal with it.
 				return
diff --git a/hcl/json/peeker.go b/hcl/json/peeker.go
index fc7bbf5..12d111e 100644
--- a/hcl/json/peeker.go
+++ b/hcl/json/peeker.go
@@ -18,7 +18,9 @@ func (p *peeker) Peek() token {
 
 func (p *peeker) Read() token {
 	ret := p.tokens[p.pos]
-	if ret.Type != tokenEOF {
+	// The scanner stops after an invalid token, so like EOF it is always the
+	// last token in the sequence.
+	if ret.Type != tokenEOF && ret.Type != tokenInvalid {
 		p.pos++
 	}
 	return ret
-- 
2.43.0


From bb1762e1c29798f4f478ed2ad860db70dec961b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:16 +0000
Subject: [PATCH 13/63] fix: ignore already-decoded blocks in attributes-only
 mode

---
 hcl/hclsyntax/structure.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/hcl/hclsyntax/structure.go b/hcl/hclsyntax/structure.go
index 476025d..d7d7176 100644
--- a/hcl/hclsyntax/structure.go
+++ b/hcl/hclsyntax/structure.go
@@ -251,17 +251,20 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 	attrs := make(hcl.Attributes)
 	var diags hcl.Diagnostics
 
-	if len(b.Blocks) > 0 {
-		example := b.Blocks[0]
+	for _, block := range b.Blocks {
+		if _, hidden := b.hiddenBlocks[block.Type]; hidden {
+			continue
+		}
 		diags = append(diags, &hcl.Diagnostic{
 			Severity: hcl.DiagError,
-			Summary:  fmt.Sprintf("Unexpected %q block", example.Type),
+			Summary:  fmt.Sprintf("Unexpected %q block", block.Type),
 			Detail:   "Blocks are not allowed here.",
-			Subject:  &example.TypeRange,
+			Subject:  &block.TypeRange,
 		})
-		// we will continue processing anyway, and return the attributes
-		// we are able to find so that certain analyses can still be done
-		// in the face of errors.
+		// One example is enough. We will continue processing anyway, and
+		// return the attributes we are able to find so that certain analyses
+		// can still be done in the face of errors.
+		break
 	}
 
 	if b.Attributes == nil {
-- 
2.43.0


From d06d54a555993fec8203835cddfd5f48483e4729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:35 +0000
Subject: [PATCH 14/63] fix: hide decoded items and provide iterators in
 attributes-only mode of expanded bodies

---
 ext/dynblock/expand_body.go | 39 +++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/ext/dynblock/expand_body.go b/ext/dynblock/expand_body.go
index dd30822..37e0e90 100644
--- a/ext/dynblock/expand_body.go
+++ b/ext/dynblock/expand_body.go
@@ -251,10 +251,41 @@ func (b *expandBody) expandChild(child hcl.Body, i *iteration) hcl.Body {
 }
 
 func (b *expandBody) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
-	// blocks aren't allowed in JustAttributes mode and this body can
-	// only produce blocks, so we'll just pass straight through to our
-	// underlying body here.
-	return b.original.JustAttributes()
+	// Blocks aren't allowed in JustAttributes mode, so there is nothing to
+	// expand here, but we must still exclude anything that was already
+	// decoded by an earlier PartialContent call and wrap the remaining
+	// attributes so that they can refer to our iterators.
+	attrs, diags := b.unhiddenOriginal().JustAttributes()
+	return b.prepareAttributes(attrs), diags
+}
+
+// unhiddenOriginal returns the original body without the items that were
+// already decoded by earlier PartialContent calls.
+func (b *expandBody) unhiddenOriginal() hcl.Body {
+	if len(b.hiddenAttrs) == 0 && len(b.hiddenBlocks) == 0 {
+		return b.original
+	}
+
+	hiddenSchema := &hcl.BodySchema{}
+	for name := range b.hiddenAttrs {
+		hiddenSchema.Attributes = append(hiddenSchema.Attributes, hcl.AttributeSchema{Name: name})
+	}
+	for _, blockS := range b.hiddenBlocks {
+		hiddenSchema.Blocks = append(hiddenSchema.Blocks, blockS)
+	}
+	_, remain, _ := b.original.PartialContent(hiddenSchema)
+
+	// The "dynamic" blocks can be excluded only if all of them belong to
+	// block types that were already decoded.
+	dynContent, dynRemain, _ := remain.PartialContent(&hcl.BodySchema{
+		Blocks: []hcl.BlockHeaderSchema{dynamicBlockHeaderSchema},
+	})
+	for _, block := range dynContent.Blocks {
+		if _, hidden := b.hiddenBlocks[block.Labels[0]]; !hidden {
+			return remain
+		}
+	}
+	return dynRemain
 }
 
 func (b *expandBody) MissingItemRange() hcl.Range {
-- 
2.43.0


From be6184417f285169ad1bd4e7f6fe93411a82d3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:56 +0000
Subject: [PATCH 15/63] fix: return each packed attribute's own expression in
 attributes-only mode

---
 hclpack/structure.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hclpack/structure.go b/hclpack/structure.go
index 488a99e..7b3e2fc 100644
--- a/hclpack/structure.go
+++ b/hclpack/structure.go
@@ -195,11 +195,12 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 	var diags hcl.Diagnostics
 	if len(b.ChildBlocks) > 0 {
 		for _, block := range b.ChildBlocks {
+			block := block // the diagnostic refers to a range inside this block
 			diags = append(diags, &hcl.Diagnostic{
 				Severity: hcl.DiagError,
 				Summary:  fmt.Sprintf("Unexpected %s block", block.Type),
 				Detail:   "Blocks are not allowed here.",
-				Context:  &block.TypeRange,
+				Subject:  &block.TypeRange,
 			})
 		}
 		// We'll continue processing anyway, and return any attributes we find
@@ -212,6 +213,7 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 
 	ret := make(hcl.Attributes, len(b.Attributes))
 	for n, a := range b.Attributes {
+		a := a // the result refers to the expression inside this attribute
 		ret[n] = a.asHCLAttribute(n)
 	}
 	return ret, diags
-- 
2.43.0


From 4f33fc1a95bcf6170c0d75cf2b198790cb5806bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:59 +0000
Subject: [PATCH 16/63] fix: return the blocks of a body in source order

---
 hclwrite/ast_body.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index cf69fee..6a7fefe 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -55,10 +55,11 @@ func (b *Body) Attributes() map[string]*Attribute {
 	return ret
 }
 
-// Blocks returns a new slice of all the blocks in the body.
+// Blocks returns a new slice of all the blocks in the body, in the order they
+// appear in the body.
 func (b *Body) Blocks() []*Block {
 	ret := make([]*Block, 0, len(b.items))
-	for n := range b.items {
+	for _, n := range b.items.List() {
 		if block, isBlock := n.content.(*Block); isBlock {
 			ret = append(ret, block)
 		}
-- 
2.43.0


From 005904b21488cfe46ac7e3a4b540ff124611a8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:51 +0000
Subject: [PATCH 17/63] fix: keep surrounding parentheses with the expression
 they belong to

---
 hclwrite/parser.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/hclwrite/parser.go b/hclwrite/parser.go
index 0e8952d..3ed7f6c 100644
--- a/hclwrite/parser.go
+++ b/hclwrite/parser.go
@@ -254,10 +254,11 @@ func parseAttribute(nativeAttr *hclsyntax.Attribute, from, leadComments, lineCom
 	children.AppendUnstructuredTokens(before.Tokens())
 	children.AppendUnstructuredTokens(equalsTokens.Tokens())
 
-	before, exprTokens, from := from.Partition(nativeAttr.Expr.Range())
 	{
-		children.AppendUnstructuredTokens(before.Tokens())
-		exprNode := parseExpression(nativeAttr.Expr, exprTokens)
+		// Everything that remains belongs to the expression. The expression's
+		// own range is not sufficient to find its tokens because it does not
+		// include any parentheses that surround the whole expression.
+		exprNode := parseExpression(nativeAttr.Expr, from)
 		attr.expr = exprNode
 		children.AppendNode(exprNode)
 	}
@@ -270,9 +271,6 @@ func parseAttribute(nativeAttr *hclsyntax.Attribute, from, leadComments, lineCom
 
 	children.AppendUnstructuredTokens(newline.Tokens())
 
-	// Collect any stragglers, though there shouldn't be any
-	children.AppendUnstructuredTokens(from.Tokens())
-
 	return newNode(attr)
 }
 
-- 
2.43.0


From 4cfa11ec1f6afda95586f211fd8e78b88c536dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:56 +0000
Subject: [PATCH 18/63] fix: load attribute expressions with legacy and keyword
 index steps

---
 hclwrite/parser.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/hclwrite/parser.go b/hclwrite/parser.go
index 3ed7f6c..ea07ec0 100644
--- a/hclwrite/parser.go
+++ b/hclwrite/parser.go
@@ -88,6 +88,16 @@ func (it inputTokens) PartitionType(ty hclsyntax.TokenType) (before, within, aft
 	panic(fmt.Sprintf("didn't find any token of type %s", ty))
 }
 
+// HasType returns true if there is at least one token of the given type.
+func (it inputTokens) HasType(ty hclsyntax.TokenType) bool {
+	for _, t := range it.writerTokens {
+		if t.Type == ty {
+			return true
+		}
+	}
+	return false
+}
+
 func (it inputTokens) PartitionTypeSingle(ty hclsyntax.TokenType) (before inputTokens, found *Token, after inputTokens) {
 	before, within, after := it.PartitionType(ty)
 	if within.Len() != 1 {
@@ -402,6 +412,21 @@ func parseTraversalStep(nativeStep hcl.Traverser, from inputTokens) (before inpu
 		children = step.inTree.children
 		before, from, after = from.Partition(nativeStep.SourceRange())
 
+		if !from.HasType(hclsyntax.TokenOBrack) {
+			// This is the legacy index syntax, like foo.0 . When two of these
+			// appear consecutively, like foo.0.1, the scanner produces only
+			// a single number token for both and so the first step then has
+			// that token and the second one has no tokens at all.
+			if from.HasType(hclsyntax.TokenNumberLit) {
+				valBefore, valToken, valAfter := from.PartitionTypeSingle(hclsyntax.TokenNumberLit)
+				children.AppendUnstructuredTokens(valBefore.Tokens())
+				step.key = children.Append(newNumber(valToken))
+				from = valAfter
+			}
+			children.AppendUnstructuredTokens(from.Tokens())
+			return before, newNode(step), after
+		}
+
 		var inBefore, oBrack, keyTokens, cBrack inputTokens
 		inBefore, oBrack, from = from.PartitionType(hclsyntax.TokenOBrack)
 		children.AppendUnstructuredTokens(inBefore.Tokens())
@@ -419,6 +444,8 @@ func parseTraversalStep(nativeStep hcl.Traverser, from inputTokens) (before inpu
 			key := newNumber(valToken)
 			step.key = children.Append(key)
 			children.AppendUnstructuredTokens(valAfter.Tokens())
+		default:
+			step.key = children.Append(keyTokens.Tokens())
 		}
 
 		children.AppendUnstructuredTokens(cBrack.Tokens())
-- 
2.43.0


From 3ca38a272440d06d2e27d29f9004e6c29f628b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:29:16 +0000
Subject: [PATCH 19/63] fix: don't join index steps into a number when
 formatting

---
 hclwrite/format.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hclwrite/format.go b/hclwrite/format.go
index 7111ebd..7807a3f 100644
--- a/hclwrite/format.go
+++ b/hclwrite/format.go
@@ -235,6 +235,11 @@ func spaceAfterToken(subject, before, after *Token) bool {
 		// Don't split a function name from open paren in a call
 		return false
 
+	case subject.Type == hclsyntax.TokenDot && before.Type == hclsyntax.TokenNumberLit && after.Type == hclsyntax.TokenNumberLit:
+		// Without a space the scanner would take these three tokens as a
+		// single fractional number.
+		return true
+
 	case subject.Type == hclsyntax.TokenDot || after.Type == hclsyntax.TokenDot:
 		// Don't use spaces around attribute access dots
 		return false
-- 
2.43.0


From b3895d524bff4cb5598b1a5786f00e25426bf3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:18 +0000
Subject: [PATCH 20/63] fix: return the tokens generated for a traversal

---
 hclwrite/generate.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hclwrite/generate.go b/hclwrite/generate.go
index d249cfd..ebd318f 100644
--- a/hclwrite/generate.go
+++ b/hclwrite/generate.go
@@ -159,12 +159,12 @@ func appendTokensForValue(val cty.Value, toks Tokens) Tokens {
 
 func appendTokensForTraversal(traversal hcl.Traversal, toks Tokens) Tokens {
 	for _, step := range traversal {
-		appendTokensForTraversalStep(step, toks)
+		toks = appendTokensForTraversalStep(step, toks)
 	}
 	return toks
 }
 
-func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) {
+func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) Tokens {
 	switch ts := step.(type) {
 	case hcl.TraverseRoot:
 		toks = append(toks, &Token{
@@ -188,7 +188,7 @@ func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) {
 			Type:  hclsyntax.TokenOBrack,
 			Bytes: []byte{'['},
 		})
-		appendTokensForValue(ts.Key, toks)
+		toks = appendTokensForValue(ts.Key, toks)
 		toks = append(toks, &Token{
 			Type:  hclsyntax.TokenCBrack,
 			Bytes: []byte{']'},
@@ -196,6 +196,8 @@ func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) {
 	default:
 		panic(fmt.Sprintf("unsupported traversal step type %T", step))
 	}
+
+	return toks
 }
 
 func escapeQuotedStringLit(s string) []byte {
-- 
2.43.0


From 9cac33b0ae573646d5514e448c11ae7ed8da6134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:22 +0000
Subject: [PATCH 21/63] fix: quote an object key "for" in generated tokens

---
 hclwrite/generate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hclwrite/generate.go b/hclwrite/generate.go
index ebd318f..73fd8f8 100644
--- a/hclwrite/generate.go
+++ b/hclwrite/generate.go
@@ -129,7 +129,8 @@ func appendTokensForValue(val cty.Value, toks Tokens) Tokens {
 				})
 			}
 			eKey, eVal := it.Element()
-			if hclsyntax.ValidIdentifier(eKey.AsString()) {
+			// An initial "for" would be taken as the start of a "for" expression.
+			if hclsyntax.ValidIdentifier(eKey.AsString()) && eKey.AsString() != "for" {
 				toks = append(toks, &Token{
 					Type:  hclsyntax.TokenIdent,
 					Bytes: []byte(eKey.AsString()),
-- 
2.43.0


From 4d366ba6294aa0994725fdff27b7c13e95d239fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:34:00 +0000
Subject: [PATCH 22/63] fix: a name with a byte order mark is not a valid
 identifier

---
 hcl/hclsyntax/public.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/public.go b/hcl/hclsyntax/public.go
index cf0ee29..e4dfa23 100644
--- a/hcl/hclsyntax/public.go
+++ b/hcl/hclsyntax/public.go
@@ -167,5 +167,7 @@ func ValidIdentifier(s string) bool {
 	// is easiest to do with our existing scanner-related infrastructure here
 	// and nobody should be validating identifiers in a tight loop.
 	tokens := scanTokens([]byte(s), "", hcl.Pos{}, scanIdentOnly)
-	return len(tokens) == 2 && tokens[0].Type == TokenIdent && tokens[1].Type == TokenEOF
+	// The scanner skips over a leading byte order mark, so we must check also
+	// that the identifier token covers the whole of the given string.
+	return len(tokens) == 2 && tokens[0].Type == TokenIdent && tokens[1].Type == TokenEOF && len(tokens[0].Bytes) == len(s)
 }
-- 
2.43.0


From 8b7fa5356533fe9bdc5cca4fc3d77d230e3f59ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:12 +0000
Subject: [PATCH 23/63] fix: return the new attribute when setting one that did
 not exist

---
 hclwrite/ast_body.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index 6a7fefe..ebb7a0b 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -97,7 +97,7 @@ func (b *Body) SetAttributeValue(name string, val cty.Value) *Attribute {
 	if attr != nil {
 		attr.expr = attr.expr.ReplaceWith(expr)
 	} else {
-		attr := newAttribute()
+		attr = newAttribute()
 		attr.init(name, expr)
 		b.appendItem(attr)
 	}
@@ -118,7 +118,7 @@ func (b *Body) SetAttributeTraversal(name string, traversal hcl.Traversal) *Attr
 	if attr != nil {
 		attr.expr = attr.expr.ReplaceWith(expr)
 	} else {
-		attr := newAttribute()
+		attr = newAttribute()
 		attr.init(name, expr)
 		b.appendItem(attr)
 	}
-- 
2.43.0


From e31079469dc78498421bf20a3fac4cdf59b63f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:16 +0000
Subject: [PATCH 24/63] fix: forget the items of a body when it is cleared

---
 hclwrite/ast_body.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index ebb7a0b..47fa509 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -35,6 +35,7 @@ func (b *Body) appendItemNode(nn *node) *node {
 // Clear removes all of the items from the body, making it empty.
 func (b *Body) Clear() {
 	b.children.Clear()
+	b.items = newNodeSet()
 }
 
 func (b *Body) AppendUnstructuredTokens(ts Tokens) {
-- 
2.43.0


From 0996cb3e75df60e8c9449734b676bf258d04a6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:48 +0000
Subject: [PATCH 25/63] fix: begin a new line when appending to a one-line
 block or unterminated line

---
 hclwrite/ast_body.go | 54 ++++++++++++++++++++++++++++++++++++++++++--
 hclwrite/node.go     | 13 +++++++++++
 hclwrite/parser.go   |  1 +
 3 files changed, 66 insertions(+), 2 deletions(-)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index 47fa509..eda1f7d 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -10,6 +10,11 @@ type Body struct {
 	inTree
 
 	items nodeSet
+
+	// afterBrace is set if the body directly follows the open brace of a
+	// block, in which case the newline after that brace is, if present, among
+	// the tokens of the body.
+	afterBrace bool
 }
 
 func newBody() *Body {
@@ -20,6 +25,7 @@ func newBody() *Body {
 }
 
 func (b *Body) appendItem(c nodeContent) *node {
+	b.startLine()
 	nn := b.children.Append(c)
 	b.items.Add(nn)
 	return nn
@@ -32,6 +38,43 @@ func (b *Body) appendItemNode(nn *node) *node {
 	return nn
 }
 
+// startLine prepares for appending to the body, by adding whatever newlines
+// are needed for the new content to begin on a new line.
+func (b *Body) startLine() {
+	needNewline := false
+	for n := b.children.last; n != nil; n = n.before {
+		if toks := n.BuildTokens(nil); len(toks) > 0 {
+			needNewline = !tokenIsNewline(toks[len(toks)-1])
+			break
+		}
+	}
+	if b.continuesBraceLine() {
+		b.children.Prepend(newlineTokens())
+	}
+	if needNewline {
+		b.children.Append(newlineTokens())
+	}
+}
+
+// continuesBraceLine returns true if the tokens of the body follow on the same
+// line as the open brace of the block they belong to.
+func (b *Body) continuesBraceLine() bool {
+	if !b.afterBrace {
+		return false
+	}
+	for n := b.children.first; n != nil; n = n.after {
+		for _, tok := range n.BuildTokens(nil) {
+			if tokenIsNewline(tok) {
+				return false
+			}
+			if tok.Type != hclsyntax.TokenComment {
+				return true
+			}
+		}
+	}
+	return true
+}
+
 // Clear removes all of the items from the body, making it empty.
 func (b *Body) Clear() {
 	b.children.Clear()
@@ -146,10 +189,17 @@ func (b *Body) AppendNewBlock(typeName string, labels []string) *Block {
 // which generally serves as a separator between different sets of body
 // contents.
 func (b *Body) AppendNewline() {
-	b.AppendUnstructuredTokens(Tokens{
+	if len(b.items) > 0 && b.continuesBraceLine() {
+		b.children.Prepend(newlineTokens())
+	}
+	b.AppendUnstructuredTokens(newlineTokens())
+}
+
+func newlineTokens() Tokens {
+	return Tokens{
 		{
 			Type:  hclsyntax.TokenNewline,
 			Bytes: []byte{'\n'},
 		},
-	})
+	}
 }
diff --git a/hclwrite/node.go b/hclwrite/node.go
index 71fd00f..d51ecd2 100644
--- a/hclwrite/node.go
+++ b/hclwrite/node.go
@@ -130,6 +130,19 @@ func (ns *nodes) AppendNode(n *node) {
 	}
 }
 
+func (ns *nodes) Prepend(c nodeContent) *node {
+	n := newNode(c)
+	n.list = ns
+	n.after = ns.first
+	if ns.first != nil {
+		ns.first.before = n
+	} else {
+		ns.last = n
+	}
+	ns.first = n
+	return n
+}
+
 func (ns *nodes) AppendUnstructuredTokens(tokens Tokens) *node {
 	if len(tokens) == 0 {
 		return nil
diff --git a/hclwrite/parser.go b/hclwrite/parser.go
index ea07ec0..f0b6f01 100644
--- a/hclwrite/parser.go
+++ b/hclwrite/parser.go
@@ -336,6 +336,7 @@ func parseBlock(nativeBlock *hclsyntax.Block, from, leadComments, lineComments,
 	bodyTokens, cBrace, from := from.Partition(nativeBlock.CloseBraceRange)
 	before, body, after := parseBody(nativeBlock.Body, bodyTokens)
 	children.AppendUnstructuredTokens(before.Tokens())
+	body.content.(*Body).afterBrace = true
 	block.body = body
 	children.AppendNode(body)
 	children.AppendUnstructuredTokens(after.Tokens())
-- 
2.43.0


From 31921d060ce505c5cd5053834ae6055f5598742c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:59:45 +0000
Subject: [PATCH 26/63] fix: accept an attribute that a schema names more than
 once

The second mention of a required attribute was reported as missing because
the first one had already been consumed.
---
 hcl/hclsyntax/structure.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/structure.go b/hcl/hclsyntax/structure.go
index d7d7176..6b73c59 100644
--- a/hcl/hclsyntax/structure.go
+++ b/hcl/hclsyntax/structure.go
@@ -146,7 +146,7 @@ func (b *Body) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Bod
 	for _, attrS := range schema.Attributes {
 		name := attrS.Name
 		attr, exists := b.Attributes[name]
-		_, hidden := hiddenAttrs[name]
+		_, hidden := b.hiddenAttrs[name]
 		if hidden || !exists {
 			if attrS.Required {
 				diags = append(diags, &hcl.Diagnostic{
-- 
2.43.0


From f138237be498bfaf447200ca9c1b7c47209eb1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:59:45 +0000
Subject: [PATCH 27/63] fix: parse packed expressions that end with a heredoc

The source kept for an expression lacks the newline after the end marker of
a heredoc, so parsing it again failed.
---
 hclpack/expression.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hclpack/expression.go b/hclpack/expression.go
index 8fa238b..e9f7353 100644
--- a/hclpack/expression.go
+++ b/hclpack/expression.go
@@ -93,7 +93,12 @@ func (e *Expression) StartRange() hcl.Range {
 func (e *Expression) Parse() (hcl.Expression, hcl.Diagnostics) {
 	switch e.SourceType {
 	case ExprNative:
-		return hclsyntax.ParseExpression(e.Source, e.Range_.Filename, e.Range_.Start)
+		// The source of an expression that ends with a heredoc doesn't include
+		// the newline that the end marker needs, so we'll put one back.
+		src := make([]byte, 0, len(e.Source)+1)
+		src = append(src, e.Source...)
+		src = append(src, '\n')
+		return hclsyntax.ParseExpression(src, e.Range_.Filename, e.Range_.Start)
 	case ExprTemplate:
 		return hclsyntax.ParseTemplate(e.Source, e.Range_.Filename, e.Range_.Start)
 	case ExprLiteralJSON:
-- 
2.43.0


From 709ea27c921939741f9ab2281fb4b81f3723aef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:59:45 +0000
Subject: [PATCH 28/63] fix: report inconsistent types in decoded blocks
 instead of panicking

The attributes of a BlockAttrsSpec with a dynamic element type and the
elements of a BlockListSpec or BlockSetSpec can have types that cannot be
made equal. That is now an error rather than a panic.
---
 hcldec/spec.go | 71 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 71 insertions(+)

diff --git a/hcldec/spec.go b/hcldec/spec.go
index f9da7f6..23e2871 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -515,6 +515,16 @@ func (s *BlockListSpec) decode(content *hcl.BodyContent, blockLabels []blockLabe
 				elems[i] = newV
 			}
 		}
+		if i := inconsistentType(elems); i >= 0 {
+			diags = append(diags, &hcl.Diagnostic{
+				Severity: hcl.DiagError,
+				Summary:  fmt.Sprintf("Unconsistent argument types in %s blocks", s.TypeName),
+				Detail:   fmt.Sprintf("Block with index %d has inconsistent argument types.", i),
+				Subject:  &sourceRanges[i],
+			})
+			// Bail early here so we won't panic below in cty.ListVal
+			return cty.DynamicVal, diags
+		}
 
 		ret = cty.ListVal(elems)
 	}
@@ -522,6 +532,23 @@ func (s *BlockListSpec) decode(content *hcl.BodyContent, blockLabels []blockLabe
 	return ret, diags
 }
 
+// inconsistentType returns the index of the first of the given values whose
+// type prevents it from being in the same collection as the values before it,
+// or -1 if there is none. Type unification alone does not rule this out if
+// cty.DynamicPseudoType appears inside the types.
+func inconsistentType(vals []cty.Value) int {
+	ety := cty.DynamicPseudoType
+	for i, val := range vals {
+		switch {
+		case ety == cty.DynamicPseudoType:
+			ety = val.Type()
+		case val.Type() != cty.DynamicPseudoType && !val.Type().Equals(ety):
+			return i
+		}
+	}
+	return -1
+}
+
 func (s *BlockListSpec) impliedType() cty.Type {
 	return cty.List(s.Nested.impliedType())
 }
@@ -789,6 +816,16 @@ func (s *BlockSetSpec) decode(content *hcl.BodyContent, blockLabels []blockLabel
 				elems[i] = newV
 			}
 		}
+		if i := inconsistentType(elems); i >= 0 {
+			diags = append(diags, &hcl.Diagnostic{
+				Severity: hcl.DiagError,
+				Summary:  fmt.Sprintf("Unconsistent argument types in %s blocks", s.TypeName),
+				Detail:   fmt.Sprintf("Block with index %d has inconsistent argument types.", i),
+				Subject:  &sourceRanges[i],
+			})
+			// Bail early here so we won't panic below in cty.SetVal
+			return cty.DynamicVal, diags
+		}
 
 		ret = cty.SetVal(elems)
 	}
@@ -1238,6 +1275,40 @@ func (s *BlockAttrsSpec) decode(content *hcl.BodyContent, blockLabels []blockLab
 		vals[name] = attrVal
 	}
 
+	// Since our target is a map, all of the attribute values must have the
+	// same type or cty.MapVal will panic below. Different types can arise if
+	// the element type has cty.DynamicPseudoType in it; all given values must
+	// be convertable to a single type in that case.
+	names := make([]string, 0, len(vals))
+	for name := range vals {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	etys := make([]cty.Type, len(names))
+	for i, name := range names {
+		etys[i] = vals[name].Type()
+	}
+	_, convs := convert.UnifyUnsafe(etys)
+	elems := make([]cty.Value, len(names))
+	for i, name := range names {
+		elems[i] = vals[name]
+		if convs != nil && convs[i] != nil {
+			if newV, err := convs[i](elems[i]); err == nil {
+				elems[i] = newV
+			}
+		}
+		vals[name] = elems[i]
+	}
+	if i := inconsistentType(elems); i >= 0 {
+		diags = append(diags, &hcl.Diagnostic{
+			Severity: hcl.DiagError,
+			Summary:  fmt.Sprintf("Inconsistent attribute types in %s block", s.TypeName),
+			Detail:   fmt.Sprintf("All attributes of a %q block must be of the same type.", s.TypeName),
+			Subject:  attrs[names[i]].Expr.Range().Ptr(),
+		})
+		return cty.UnknownVal(s.impliedType()), diags
+	}
+
 	return cty.MapVal(vals), diags
 }
 
-- 
2.43.0


From 99ee30f99e4607bc4fb931a075896a1355ed2ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:59:45 +0000
Subject: [PATCH 29/63] fix: skip the map labels when finding the source range
 of a nested label

---
 hcldec/spec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hcldec/spec.go b/hcldec/spec.go
index 23e2871..155941c 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -1000,7 +1000,7 @@ func (s *BlockMapSpec) sourceRange(content *hcl.BodyContent, blockLabels []block
 		return content.MissingItemRange
 	}
 
-	return sourceRange(childBlock.Body, labelsForBlock(childBlock), s.Nested)
+	return sourceRange(childBlock.Body, labelsForBlock(childBlock)[len(s.LabelNames):], s.Nested)
 }
 
 // A BlockObjectSpec is a Spec that produces a cty object of the results of
@@ -1144,7 +1144,7 @@ func (s *BlockObjectSpec) sourceRange(content *hcl.BodyContent, blockLabels []bl
 		return content.MissingItemRange
 	}
 
-	return sourceRange(childBlock.Body, labelsForBlock(childBlock), s.Nested)
+	return sourceRange(childBlock.Body, labelsForBlock(childBlock)[len(s.LabelNames):], s.Nested)
 }
 
 // A BlockAttrsSpec is a Spec that interprets a single block as if it were
-- 
2.43.0


From 4900c46d730443d2a2fd6be961a83bb211ec25ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:28 +0000
Subject: [PATCH 30/63] fix: gohcl: decode blocks into raw block, body and
 attributes fields

The package documentation allows fields of type *hcl.Block and hcl.Body,
and slices of them, to receive undecoded blocks. Building the schema for
such a struct panicked, and so did assigning to the field.
---
 gohcl/decode.go | 10 +++++-----
 gohcl/schema.go |  8 ++++++++
 gohcl/types.go  |  6 ++++++
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/gohcl/decode.go b/gohcl/decode.go
index 3a149a8..191214b 100644
--- a/gohcl/decode.go
+++ b/gohcl/decode.go
@@ -127,7 +127,7 @@ func decodeBodyToStruct(body hcl.Body, ctx *hcl.EvalContext, val reflect.Value)
 			isSlice = true
 			ty = ty.Elem()
 		}
-		if ty.Kind() == reflect.Ptr {
+		if ty.Kind() == reflect.Ptr && !isRawBlockType(ty) {
 			isPtr = true
 			ty = ty.Elem()
 		}
@@ -146,7 +146,7 @@ func decodeBodyToStruct(body hcl.Body, ctx *hcl.EvalContext, val reflect.Value)
 		}
 
 		if len(blocks) == 0 {
-			if isSlice || isPtr {
+			if isSlice || field.Type.Kind() == reflect.Ptr {
 				val.Field(fieldIdx).Set(reflect.Zero(field.Type))
 			} else {
 				diags = append(diags, &hcl.Diagnostic{
@@ -230,15 +230,15 @@ func decodeBlockToValue(block *hcl.Block, ctx *hcl.EvalContext, v reflect.Value)
 
 	switch {
 	case blockType.AssignableTo(ty):
-		v.Elem().Set(reflect.ValueOf(block))
+		v.Set(reflect.ValueOf(block))
 	case bodyType.AssignableTo(ty):
-		v.Elem().Set(reflect.ValueOf(block.Body))
+		v.Set(reflect.ValueOf(block.Body))
 	case attrsType.AssignableTo(ty):
 		attrs, attrsDiags := block.Body.JustAttributes()
 		if len(attrsDiags) > 0 {
 			diags = append(diags, attrsDiags...)
 		}
-		v.Elem().Set(reflect.ValueOf(attrs))
+		v.Set(reflect.ValueOf(attrs))
 	default:
 		diags = append(diags, decodeBodyToValue(block.Body, ctx, v)...)
 
diff --git a/gohcl/schema.go b/gohcl/schema.go
index 88164cb..e1e3c2d 100644
--- a/gohcl/schema.go
+++ b/gohcl/schema.go
@@ -77,6 +77,14 @@ func ImpliedBodySchema(val interface{}) (schema *hcl.BodySchema, partial bool) {
 		if fty.Kind() == reflect.Slice {
 			fty = fty.Elem()
 		}
+		if isRawBlockType(fty) {
+			// The raw block, body or attributes are captured, so there are
+			// no nested tags from which to find label names.
+			blockSchemas = append(blockSchemas, hcl.BlockHeaderSchema{
+				Type: n,
+			})
+			continue
+		}
 		if fty.Kind() == reflect.Ptr {
 			fty = fty.Elem()
 		}
diff --git a/gohcl/types.go b/gohcl/types.go
index a94f275..9326dc4 100644
--- a/gohcl/types.go
+++ b/gohcl/types.go
@@ -14,3 +14,9 @@ var bodyType = reflect.TypeOf(&victimBody).Elem()
 var blockType = reflect.TypeOf((*hcl.Block)(nil))
 var attrType = reflect.TypeOf((*hcl.Attribute)(nil))
 var attrsType = reflect.TypeOf(hcl.Attributes(nil))
+
+// isRawBlockType returns true if the given type is one of the types that
+// captures a block without decoding its content.
+func isRawBlockType(ty reflect.Type) bool {
+	return ty == blockType || ty == bodyType || ty == attrsType
+}
-- 
2.43.0


From 84b8cea3aa5f7169d78ee584e7e8ef4ff4c3304a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:28 +0000
Subject: [PATCH 31/63] fix: gohcl: ignore undecoded pointer fields when
 encoding

Fields of type *hcl.Attribute and *hcl.Block are not encodable and are
documented as ignored. The check compared the pointed-to type, so a set
*hcl.Attribute field panicked and a *hcl.Block field wrote an empty block.
---
 gohcl/encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gohcl/encode.go b/gohcl/encode.go
index 3cbf7e4..13d6dc9 100644
--- a/gohcl/encode.go
+++ b/gohcl/encode.go
@@ -114,7 +114,7 @@ func populateBody(rv reflect.Value, ty reflect.Type, tags *fieldTags, dst *hclwr
 
 		if _, isAttr := tags.Attributes[name]; isAttr {
 
-			if exprType.AssignableTo(fieldTy) || attrType.AssignableTo(fieldTy) {
+			if exprType.AssignableTo(fieldTy) || attrType.AssignableTo(field.Type) {
 				continue // ignore undecoded fields
 			}
 			if !fieldVal.IsValid() {
@@ -150,7 +150,7 @@ func populateBody(rv reflect.Value, ty reflect.Type, tags *fieldTags, dst *hclwr
 				elemTy = elemTy.Elem()
 			}
 
-			if bodyType.AssignableTo(elemTy) || attrsType.AssignableTo(elemTy) {
+			if isRawBlockType(elemTy) || isRawBlockType(field.Type) {
 				continue // ignore undecoded fields
 			}
 			prevWasBlock = false
-- 
2.43.0


From 14421baeb3b0fb260a1f008da27981f7bd46fff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:28 +0000
Subject: [PATCH 32/63] fix: hclpack: pack expressions of sources that start
 inside a file

The ranges of a file parsed with a start position include its byte offset,
but they were used to slice the given source directly, so the packed
expressions had the wrong source code.
---
 hclpack/pack_native.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hclpack/pack_native.go b/hclpack/pack_native.go
index 05f67a6..3792a99 100644
--- a/hclpack/pack_native.go
+++ b/hclpack/pack_native.go
@@ -14,15 +14,21 @@ import (
 func PackNativeFile(src []byte, filename string, start hcl.Pos) (*Body, hcl.Diagnostics) {
 	f, diags := hclsyntax.ParseConfig(src, filename, start)
 	rootBody := f.Body.(*hclsyntax.Body)
-	return packNativeBody(rootBody, src), diags
+	return packNativeBody(rootBody, src, start.Byte), diags
 }
 
-func packNativeBody(body *hclsyntax.Body, src []byte) *Body {
+// packNativeBody packs the given body, whose source code is in src. The byte
+// offsets in its ranges are relative to srcStart, the offset of the first byte
+// of src.
+func packNativeBody(body *hclsyntax.Body, src []byte, srcStart int) *Body {
 	ret := &Body{}
 	for name, attr := range body.Attributes {
 		exprRng := attr.Expr.Range()
 		exprStartRng := attr.Expr.StartRange()
-		exprSrc := exprRng.SliceBytes(src)
+		srcRng := exprRng
+		srcRng.Start.Byte -= srcStart
+		srcRng.End.Byte -= srcStart
+		exprSrc := srcRng.SliceBytes(src)
 		ret.setAttribute(name, Attribute{
 			Expr: Expression{
 				Source:     exprSrc,
@@ -37,7 +43,7 @@ func packNativeBody(body *hclsyntax.Body, src []byte) *Body {
 	}
 
 	for _, block := range body.Blocks {
-		childBody := packNativeBody(block.Body, src)
+		childBody := packNativeBody(block.Body, src, srcStart)
 		defRange := block.TypeRange
 		if len(block.LabelRanges) > 0 {
 			defRange = hcl.RangeBetween(defRange, block.LabelRanges[len(block.LabelRanges)-1])
-- 
2.43.0


From 8da249fab862b6e7a73fb2742bbc95d67ff1d6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:28 +0000
Subject: [PATCH 33/63] fix: hclpack: keep positions when sources share a
 filename

Positions were sorted by byte offset only. If items from separately parsed
sources with the same filename were packed together then line numbers could
decrease, and the packed deltas were then decoded to different positions.
---
 hclpack/positions_packed.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hclpack/positions_packed.go b/hclpack/positions_packed.go
index 29c7144..e012158 100644
--- a/hclpack/positions_packed.go
+++ b/hclpack/positions_packed.go
@@ -318,7 +318,17 @@ func (sp sortPositions) Len() int {
 }
 
 func (sp sortPositions) Less(i, j int) bool {
-	return sp[i].Byte < sp[j].Byte
+	// Line numbers must never decrease within a file, even if its positions
+	// were recorded relative to different starting positions, because the
+	// encoding of a negative line delta could be mistaken for a delimiter.
+	switch {
+	case sp[i].Line != sp[j].Line:
+		return sp[i].Line < sp[j].Line
+	case sp[i].Column != sp[j].Column:
+		return sp[i].Column < sp[j].Column
+	default:
+		return sp[i].Byte < sp[j].Byte
+	}
 }
 
 func (sp sortPositions) Swap(i, j int) {
-- 
2.43.0


From c397ea6ffc68c774c6d58222a150ab0beea3d452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:28 +0000
Subject: [PATCH 34/63] fix: hclpack: check both bounds of packed position
 indexes

The bounds check combined the two conditions with && so it was never true,
and unmarshalling a body whose ranges refer to positions outside of the
position table panicked.
---
 hclpack/positions_packed.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hclpack/positions_packed.go b/hclpack/positions_packed.go
index e012158..1a04d8c 100644
--- a/hclpack/positions_packed.go
+++ b/hclpack/positions_packed.go
@@ -172,10 +172,10 @@ func packRange(rng hcl.Range, pos map[string]map[hcl.Pos]posOfs) rangePacked {
 func (rp rangePacked) Unpack(fns []string, poss []position) hcl.Range {
 	startIdx := rp.Start.Index()
 	endIdx := rp.End.Index()
-	if startIdx < 0 && startIdx >= len(poss) {
+	if startIdx < 0 || startIdx >= len(poss) {
 		return hcl.Range{} // out of bounds, so invalid
 	}
-	if endIdx < 0 && endIdx >= len(poss) {
+	if endIdx < 0 || endIdx >= len(poss) {
 		return hcl.Range{} // out of bounds, so invalid
 	}
 	startPos := poss[startIdx]
-- 
2.43.0


From da2478e1c2f3ab873d4b988041c796a34a00307d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:33 +0000
Subject: [PATCH 35/63] fix: report all variables of a spec when walking
 dynamic blocks

Variables used by ExprSpec, and variables in blocks decoded with
BlockAttrsSpec, were missing from the result of VariablesHCLDec although
hcldec.Variables reports them.
---
 ext/dynblock/variables.go        | 33 ++++++++++++++++-----------
 ext/dynblock/variables_hcldec.go | 38 ++++++++++++++++++++++++++++++++
 2 files changed, 58 insertions(+), 13 deletions(-)

diff --git a/ext/dynblock/variables.go b/ext/dynblock/variables.go
index ad838f3..3e18528 100644
--- a/ext/dynblock/variables.go
+++ b/ext/dynblock/variables.go
@@ -77,19 +77,7 @@ func (n WalkVariablesNode) Visit(schema *hcl.BodySchema) (vars []hcl.Traversal,
 	children = make([]WalkVariablesChild, 0, len(container.Blocks))
 
 	if n.includeContent {
-		for _, attr := range container.Attributes {
-			for _, traversal := range attr.Expr.Variables() {
-				var ours, inherited bool
-				if n.it != nil {
-					ours = traversal.RootName() == n.it.IteratorName
-					_, inherited = n.it.Inherited[traversal.RootName()]
-				}
-
-				if !(ours || inherited) {
-					vars = append(vars, traversal)
-				}
-			}
-		}
+		vars = append(vars, n.attributesVariables(container.Attributes)...)
 	}
 
 	for _, block := range container.Blocks {
@@ -169,6 +157,25 @@ func (n WalkVariablesNode) Visit(schema *hcl.BodySchema) (vars []hcl.Traversal,
 	return vars, children
 }
 
+// attributesVariables returns the variable traversals in the given attributes,
+// excluding those that refer to iterators.
+func (n WalkVariablesNode) attributesVariables(attrs hcl.Attributes) (vars []hcl.Traversal) {
+	for _, attr := range attrs {
+		for _, traversal := range attr.Expr.Variables() {
+			var ours, inherited bool
+			if n.it != nil {
+				ours = traversal.RootName() == n.it.IteratorName
+				_, inherited = n.it.Inherited[traversal.RootName()]
+			}
+
+			if !(ours || inherited) {
+				vars = append(vars, traversal)
+			}
+		}
+	}
+	return vars
+}
+
 func (n WalkVariablesNode) extendSchema(schema *hcl.BodySchema) *hcl.BodySchema {
 	// We augment the requested schema to also include our special "dynamic"
 	// block type, since then we'll get instances of it interleaved with
diff --git a/ext/dynblock/variables_hcldec.go b/ext/dynblock/variables_hcldec.go
index a078d91..74008bf 100644
--- a/ext/dynblock/variables_hcldec.go
+++ b/ext/dynblock/variables_hcldec.go
@@ -30,9 +30,23 @@ func ExpandVariablesHCLDec(body hcl.Body, spec hcldec.Spec) []hcl.Traversal {
 func walkVariablesWithHCLDec(node WalkVariablesNode, spec hcldec.Spec) []hcl.Traversal {
 	vars, children := node.Visit(hcldec.ImpliedSchema(spec))
 
+	if node.includeContent {
+		// Some specs need variables whatever the body contains.
+		vars = append(vars, hcldec.Variables(hcl.EmptyBody(), spec)...)
+	}
+
 	if len(children) > 0 {
 		childSpecs := hcldec.ChildBlockTypes(spec)
+		attrsTypes := map[string]bool{}
+		findAttrsBlockTypes(spec, attrsTypes)
 		for _, child := range children {
+			if attrsTypes[child.BlockTypeName] {
+				if child.Node.includeContent {
+					attrs, _ := child.Node.body.JustAttributes()
+					vars = append(vars, child.Node.attributesVariables(attrs)...)
+				}
+				continue
+			}
 			if childSpec, exists := childSpecs[child.BlockTypeName]; exists {
 				vars = append(vars, walkVariablesWithHCLDec(child.Node, childSpec)...)
 			}
@@ -41,3 +55,27 @@ func walkVariablesWithHCLDec(node WalkVariablesNode, spec hcldec.Spec) []hcl.Tra
 
 	return vars
 }
+
+// findAttrsBlockTypes finds the types of the child blocks whose bodies are
+// decoded in attributes-only mode, and so have no schema of their own.
+func findAttrsBlockTypes(spec hcldec.Spec, types map[string]bool) {
+	switch s := spec.(type) {
+	case *hcldec.BlockAttrsSpec:
+		types[s.TypeName] = true
+	case hcldec.ObjectSpec:
+		for _, child := range s {
+			findAttrsBlockTypes(child, types)
+		}
+	case hcldec.TupleSpec:
+		for _, child := range s {
+			findAttrsBlockTypes(child, types)
+		}
+	case *hcldec.DefaultSpec:
+		findAttrsBlockTypes(s.Primary, types)
+		findAttrsBlockTypes(s.Default, types)
+	case *hcldec.TransformExprSpec:
+		findAttrsBlockTypes(s.Wrapped, types)
+	case *hcldec.TransformFuncSpec:
+		findAttrsBlockTypes(s.Wrapped, types)
+	}
+}
-- 
2.43.0


From 7d270eac22feba5441e606c95a173a126b0adc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:32:02 +0000
Subject: [PATCH 36/63] fix: transform the blocks of a body left by a partial
 decode

transform.Deep returned the remaining body of PartialContent unwrapped, so
the transformer was not applied to any block extracted from it.
---
 ext/transform/transform.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ext/transform/transform.go b/ext/transform/transform.go
index 30e9eed..12908ed 100644
--- a/ext/transform/transform.go
+++ b/ext/transform/transform.go
@@ -45,6 +45,12 @@ func (w deepWrapper) Content(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Diag
 func (w deepWrapper) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Body, hcl.Diagnostics) {
 	content, remain, diags := w.Transformed.PartialContent(schema)
 	content = w.transformContent(content)
+	// The remaining body is already transformed, but any blocks inside it
+	// must be transformed too once they are extracted.
+	remain = deepWrapper{
+		Transformed: remain,
+		Transformer: w.Transformer,
+	}
 	return content, remain, diags
 }
 
-- 
2.43.0


From 8e9db31cbeb88d5d3efef4f588043cfc6b173616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:32:13 +0000
Subject: [PATCH 37/63] fix: return a usable remaining body from an error body

PartialContent of a body made by transform.NewErrorBody returned a nil
remaining body, which panicked when it was decoded.
---
 ext/transform/error.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ext/transform/error.go b/ext/transform/error.go
index d7de418..6ee0116 100644
--- a/ext/transform/error.go
+++ b/ext/transform/error.go
@@ -67,7 +67,13 @@ func (b diagBody) Content(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Diagnos
 
 func (b diagBody) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Body, hcl.Diagnostics) {
 	if b.Diags.HasErrors() {
-		return b.emptyContent(), b.Wrapped, b.Diags
+		remain := b.Wrapped
+		if remain == nil {
+			// There is no other body to return, so decoding the remaining
+			// body will report the same errors.
+			remain = b
+		}
+		return b.emptyContent(), remain, b.Diags
 	}
 
 	content, remain, wrappedDiags := b.Wrapped.PartialContent(schema)
-- 
2.43.0


From 4c6a72096567e72d7e0333bc40afd24e3780f4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:35:30 +0000
Subject: [PATCH 38/63] fix: do not record JSON files that cannot be read

Sources panicked after ParseJSONFile was asked for a missing file.
---
 hclparse/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hclparse/parser.go b/hclparse/parser.go
index 6d47f12..b151360 100644
--- a/hclparse/parser.go
+++ b/hclparse/parser.go
@@ -89,7 +89,9 @@ func (p *Parser) ParseJSONFile(filename string) (*hcl.File, hcl.Diagnostics) {
 	}
 
 	file, diags := json.ParseFile(filename)
-	p.files[filename] = file
+	if file != nil { // nil if the file could not be read
+		p.files[filename] = file
+	}
 	return file, diags
 }
 
-- 
2.43.0


From 7ad75c8c6d437e84658331ab9e02579813780e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:04 +0000
Subject: [PATCH 39/63] fix: include.FileResolver panics when a file cannot be
 read

---
 ext/include/file_resolver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ext/include/file_resolver.go b/ext/include/file_resolver.go
index c79a094..e9b8af4 100644
--- a/ext/include/file_resolver.go
+++ b/ext/include/file_resolver.go
@@ -48,5 +48,9 @@ func (r fileResolver) ResolveBodyPath(path string, refRange hcl.Range) (hcl.Body
 		f, diags = r.Parser.ParseHCLFile(targetFile)
 	}
 
+	if f == nil {
+		// The file could not be read at all.
+		return nil, diags
+	}
 	return f.Body, diags
 }
-- 
2.43.0


From 0912d33c007d1d6ca6f2a3e8fd58a4e20bb39a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:14 +0000
Subject: [PATCH 40/63] fix: include transformer loses errors in include blocks
 and panics on nil bodies

---
 ext/include/transformer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ext/include/transformer.go b/ext/include/transformer.go
index 15c513f..7923e18 100644
--- a/ext/include/transformer.go
+++ b/ext/include/transformer.go
@@ -76,9 +76,19 @@ func (t *transformer) TransformBody(in hcl.Body) hcl.Body {
 		}
 
 		incBody, incDiags := t.Resolver.ResolveBodyPath(path, pathExpr.Range())
+		if incBody == nil {
+			diags = append(diags, incDiags...)
+			continue
+		}
 		bodies = append(bodies, transform.BodyWithDiagnostics(incBody, incDiags))
 	}
 
+	if len(diags) > 0 {
+		// Emit the diagnostics about the include blocks themselves when
+		// content is requested, along with those for the included bodies.
+		bodies = append(bodies, transform.BodyWithDiagnostics(hcl.EmptyBody(), diags))
+	}
+
 	return hcl.MergeBodies(bodies)
 }
 
-- 
2.43.0


From f5ee6122bf3feebd7dd3663073308626c7ace7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:49 +0000
Subject: [PATCH 41/63] fix: include.FileResolver looks for files in the wrong
 directory

---
 ext/include/file_resolver.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ext/include/file_resolver.go b/ext/include/file_resolver.go
index e9b8af4..0c96ad7 100644
--- a/ext/include/file_resolver.go
+++ b/ext/include/file_resolver.go
@@ -36,9 +36,19 @@ type fileResolver struct {
 }
 
 func (r fileResolver) ResolveBodyPath(path string, refRange hcl.Range) (hcl.Body, hcl.Diagnostics) {
-	callerFile := filepath.Join(r.BaseDir, refRange.Filename)
+	callerFile := refRange.Filename
+	if !filepath.IsAbs(callerFile) {
+		callerFile = filepath.Join(r.BaseDir, callerFile)
+	}
 	callerDir := filepath.Dir(callerFile)
 	targetFile := filepath.Join(callerDir, path)
+	if filepath.Clean(r.BaseDir) != "." {
+		// The included file may itself be a caller, in which case its name
+		// must not be interpreted relative to the base directory again.
+		if abs, err := filepath.Abs(targetFile); err == nil {
+			targetFile = abs
+		}
+	}
 
 	var f *hcl.File
 	var diags hcl.Diagnostics
-- 
2.43.0


From cd6bf160c4d637594d260147d96ee8603e824630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:47:57 +0000
Subject: [PATCH 42/63] fix: typeexpr.TypeString gives invalid syntax when the
 first attribute is named for

---
 ext/typeexpr/public.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ext/typeexpr/public.go b/ext/typeexpr/public.go
index e3f5eef..fec8483 100644
--- a/ext/typeexpr/public.go
+++ b/ext/typeexpr/public.go
@@ -83,6 +83,11 @@ func TypeString(ty cty.Type) string {
 			names = append(names, name)
 		}
 		sort.Strings(names)
+		if len(names) > 1 && names[0] == "for" {
+			// In the first position this would be taken as the introduction
+			// of a "for" expression.
+			names[0], names[1] = names[1], names[0]
+		}
 		first := true
 		for _, name := range names {
 			aty := atys[name]
-- 
2.43.0


From fdf38865079139aeed7e7d0b1fbe8f3c36c63f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:48:03 +0000
Subject: [PATCH 43/63] fix: hcl.ExprCall ignores expansion of the final
 argument

---
 hcl/hclsyntax/expression.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index 5186d0e..56a97b4 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -467,6 +467,10 @@ func (e *FunctionCallExpr) StartRange() hcl.Range {
 
 // Implementation for hcl.ExprCall.
 func (e *FunctionCallExpr) ExprCall() *hcl.StaticCall {
+	if e.ExpandFinal {
+		// The arguments are not statically known, then.
+		return nil
+	}
 	ret := &hcl.StaticCall{
 		Name:      e.Name,
 		NameRange: e.NameRange,
-- 
2.43.0


From 720a714c15c17795a54cf0ac2b1440a85489539a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:51:21 +0000
Subject: [PATCH 44/63] fix: hcl.Range.Overlaps is true for ranges that are
 only adjacent

---
 hcl/diagnostic_text.go | 6 +++++-
 hcl/pos.go             | 6 +-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/hcl/diagnostic_text.go b/hcl/diagnostic_text.go
index 0b4a262..02d2967 100644
--- a/hcl/diagnostic_text.go
+++ b/hcl/diagnostic_text.go
@@ -112,7 +112,11 @@ func (w *diagnosticTextWriter) WriteDiagnostic(diag *Diagnostic) error {
 
 			for sc.Scan() {
 				lineRange := sc.Range()
-				if !lineRange.Overlaps(snipRange) {
+				// The newline at the end of the line belongs to the line too,
+				// even though it is not included in the scanned range.
+				wholeLineRange := lineRange
+				wholeLineRange.End.Byte++
+				if !wholeLineRange.Overlaps(snipRange) {
 					continue
 				}
 
diff --git a/hcl/pos.go b/hcl/pos.go
index 06db8bf..a068326 100644
--- a/hcl/pos.go
+++ b/hcl/pos.go
@@ -202,12 +202,8 @@ func (r Range) Overlaps(other Range) bool {
 	case r.Empty() || other.Empty():
 		// Empty ranges can never overlap
 		return false
-	case r.ContainsOffset(other.Start.Byte) || r.ContainsOffset(other.End.Byte):
-		return true
-	case other.ContainsOffset(r.Start.Byte) || other.ContainsOffset(r.End.Byte):
-		return true
 	default:
-		return false
+		return r.ContainsOffset(other.Start.Byte) || other.ContainsOffset(r.Start.Byte)
 	}
 }
 
-- 
2.43.0


From ea8db0654516efeb0f64d2dc8b499efc9b4a111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:51:27 +0000
Subject: [PATCH 45/63] fix: hcl.RangeScanner skips the beginning of a fragment
 that does not start at byte 0

---
 hcl/pos_scanner.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hcl/pos_scanner.go b/hcl/pos_scanner.go
index 17c0d7c..d86215c 100644
--- a/hcl/pos_scanner.go
+++ b/hcl/pos_scanner.go
@@ -23,7 +23,8 @@ type RangeScanner struct {
 	b        []byte
 	cb       bufio.SplitFunc
 
-	pos Pos    // position of next byte to process in b
+	pos Pos    // position of next byte to process
+	off int    // offset of that byte in b, which differs from pos.Byte for a fragment
 	cur Range  // latest range
 	tok []byte // slice of b that is covered by cur
 	err error  // error from last scan, if any
@@ -56,7 +57,7 @@ func NewRangeScannerFragment(b []byte, filename string, start Pos, cb bufio.Spli
 }
 
 func (sc *RangeScanner) Scan() bool {
-	if sc.pos.Byte >= len(sc.b) || sc.err != nil {
+	if sc.off >= len(sc.b) || sc.err != nil {
 		// All done
 		return false
 	}
@@ -64,7 +65,7 @@ func (sc *RangeScanner) Scan() bool {
 	// Since we're operating on an in-memory buffer, we always pass the whole
 	// remainder of the buffer to our SplitFunc and set isEOF to let it know
 	// that it has the whole thing.
-	advance, token, err := sc.cb(sc.b[sc.pos.Byte:], true)
+	advance, token, err := sc.cb(sc.b[sc.off:], true)
 
 	// Since we are setting isEOF to true this should never happen, but
 	// if it does we will just abort and assume the SplitFunc is misbehaving.
@@ -92,7 +93,7 @@ func (sc *RangeScanner) Scan() bool {
 	// we're being asked to skip over by the SplitFunc.
 	// adv is a slice covering any additional bytes we are skipping over, based
 	// on what the SplitFunc told us to do with advance.
-	adv := sc.b[sc.pos.Byte : sc.pos.Byte+advance]
+	adv := sc.b[sc.off : sc.off+advance]
 
 	// We now need to scan over our token to count the grapheme clusters
 	// so we can correctly advance Column, and count the newlines so we
@@ -130,6 +131,7 @@ func (sc *RangeScanner) Scan() bool {
 		End:      end,
 	}
 	sc.pos = new
+	sc.off += advanced
 	return true
 }
 
-- 
2.43.0


From 5d66c5c213a2924417e4be65d2880b29c90f6c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:51:33 +0000
Subject: [PATCH 46/63] fix: hcl.RangeScanner counts a lone carriage return as
 a newline

---
 hcl/pos_scanner.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hcl/pos_scanner.go b/hcl/pos_scanner.go
index d86215c..6c8735e 100644
--- a/hcl/pos_scanner.go
+++ b/hcl/pos_scanner.go
@@ -109,8 +109,9 @@ func (sc *RangeScanner) Scan() bool {
 
 		// We rely here on the fact that \r\n is considered a grapheme cluster
 		// and so we don't need to worry about miscounting additional lines
-		// on files with Windows-style line endings.
-		if len(gr) != 0 && (gr[0] == '\r' || gr[0] == '\n') {
+		// on files with Windows-style line endings. A lone \r is not a newline
+		// for our parsers, so it isn't one here either.
+		if len(gr) != 0 && gr[len(gr)-1] == '\n' {
 			new.Column = 1
 			new.Line++
 		}
-- 
2.43.0


From 02d168c944f65d8e73d0f412ee802c39204f949f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:52:52 +0000
Subject: [PATCH 47/63] fix: hcl.RangeScanner gives wrong ranges when the split
 function skips leading bytes

---
 hcl/pos_scanner.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/hcl/pos_scanner.go b/hcl/pos_scanner.go
index 6c8735e..44b00f8 100644
--- a/hcl/pos_scanner.go
+++ b/hcl/pos_scanner.go
@@ -84,6 +84,16 @@ func (sc *RangeScanner) Scan() bool {
 		return false
 	}
 
+	// A SplitFunc may skip some bytes before the token it returns, in which
+	// case the token is a subslice of the buffer that starts further along.
+	rest := sc.b[sc.off:]
+	skipped := 0
+	if token == nil {
+		skipped = advance
+	} else if i := cap(rest) - cap(token); len(token) > 0 && i > 0 && i+len(token) <= advance && &rest[i] == &token[0] {
+		skipped = i
+	}
+
 	sc.tok = token
 	start := sc.pos
 	end := sc.pos
@@ -116,7 +126,10 @@ func (sc *RangeScanner) Scan() bool {
 			new.Line++
 		}
 
-		if advanced < len(token) {
+		if advanced < skipped {
+			start = new
+			end = new
+		} else if advanced < skipped+len(token) {
 			// If we've not yet found the end of our token then we'll
 			// also push our "end" marker along.
 			// (if advance > len(token) then we'll stop moving "end" early
@@ -133,6 +146,10 @@ func (sc *RangeScanner) Scan() bool {
 	}
 	sc.pos = new
 	sc.off += advanced
+	if token == nil {
+		// There was no token in the portion we skipped.
+		return sc.Scan()
+	}
 	return true
 }
 
-- 
2.43.0


From 0eebe27348a1f28c3642f27af4260e0e903adb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:31 +0000
Subject: [PATCH 48/63] fix: hcl.RangeScanner never ends on a character of more
 than 64 kilobytes

---
 hcl/pos_scanner.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/hcl/pos_scanner.go b/hcl/pos_scanner.go
index 44b00f8..5a70ec4 100644
--- a/hcl/pos_scanner.go
+++ b/hcl/pos_scanner.go
@@ -2,7 +2,6 @@ package hcl
 
 import (
 	"bufio"
-	"bytes"
 
 	"github.com/apparentlymart/go-textseg/textseg"
 )
@@ -108,12 +107,12 @@ func (sc *RangeScanner) Scan() bool {
 	// We now need to scan over our token to count the grapheme clusters
 	// so we can correctly advance Column, and count the newlines so we
 	// can correctly advance Line.
-	advR := bytes.NewReader(adv)
-	gsc := bufio.NewScanner(advR)
 	advanced := 0
-	gsc.Split(textseg.ScanGraphemeClusters)
-	for gsc.Scan() {
-		gr := gsc.Bytes()
+	for advanced < len(adv) {
+		n, gr, _ := textseg.ScanGraphemeClusters(adv[advanced:], true)
+		if n == 0 {
+			break // should never happen
+		}
 		new.Byte += len(gr)
 		new.Column++
 
-- 
2.43.0


From 60d85239a60896ee905e47a3821717f82566b8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:42 +0000
Subject: [PATCH 49/63] fix: accept block_attrs blocks in hcldec spec files

The hcldec command documents and implements the block_attrs spec type, but
it was missing from the list of block types that a spec file may contain.
Every use of it was reported as an unsupported block type.
---
 cmd/hcldec/spec.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/hcldec/spec.go b/cmd/hcldec/spec.go
index c8b90d3..f772018 100644
--- a/cmd/hcldec/spec.go
+++ b/cmd/hcldec/spec.go
@@ -606,6 +606,7 @@ var specBlockTypes = []string{
 	"attr",
 
 	"block",
+	"block_attrs",
 	"block_list",
 	"block_map",
 	"block_set",
-- 
2.43.0


From 0535086e58524a849695cb5fe8d6f5acd04833ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:46 +0000
Subject: [PATCH 50/63] fix: do not panic on a hcldec default spec with one
 nested spec

The warning about a default block with only one nested spec took its source
range from the second nested block, which does not exist.
---
 cmd/hcldec/spec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/hcldec/spec.go b/cmd/hcldec/spec.go
index f772018..eaf4c57 100644
--- a/cmd/hcldec/spec.go
+++ b/cmd/hcldec/spec.go
@@ -523,7 +523,7 @@ func decodeDefaultSpec(body hcl.Body) (hcldec.Spec, hcl.Diagnostics) {
 			Severity: hcl.DiagWarning,
 			Summary:  "Useless default block",
 			Detail:   "A default block with only one spec is equivalent to using that spec alone.",
-			Subject:  &content.Blocks[1].DefRange,
+			Subject:  &content.Blocks[0].DefRange,
 		})
 	}
 
-- 
2.43.0


From 18120d61a19d593b0a565c6ed3d6ba60cdd05003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:49 +0000
Subject: [PATCH 51/63] fix: do not panic on a hcldec default spec without a
 valid nested spec

When every nested spec of a default block was invalid the result was a nil
spec, which crashed a surrounding block_map spec before the errors about the
nested specs could be shown.
---
 cmd/hcldec/spec.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/hcldec/spec.go b/cmd/hcldec/spec.go
index eaf4c57..7aa1a2e 100644
--- a/cmd/hcldec/spec.go
+++ b/cmd/hcldec/spec.go
@@ -545,6 +545,11 @@ func decodeDefaultSpec(body hcl.Body) (hcldec.Spec, hcl.Diagnostics) {
 		}
 	}
 
+	if spec == nil {
+		// All of the candidates were invalid, and so are already reported.
+		return errSpec, diags
+	}
+
 	return spec, diags
 }
 
-- 
2.43.0


From 3f67a63b8d05d2c5d5e3c7f784b11d05b105be36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:52 +0000
Subject: [PATCH 52/63] fix: keep the precision of numbers in the output of
 hcldec

Removing null properties from the result decoded all numbers as float64 and
encoded them again, so large integers came out changed and numbers beyond
the range of float64 crashed the command.
---
 cmd/hcldec/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/hcldec/main.go b/cmd/hcldec/main.go
index 16dbb03..237b5a5 100644
--- a/cmd/hcldec/main.go
+++ b/cmd/hcldec/main.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io/ioutil"
@@ -331,8 +332,12 @@ func showVarRefsJSON(vars []hcl.Traversal, ctx *hcl.EvalContext) error {
 }
 
 func stripJSONNullProperties(src []byte) []byte {
+	// Numbers are kept as they were written, because they may need more
+	// precision than a float64 has.
 	var v interface{}
-	err := json.Unmarshal(src, &v)
+	dec := json.NewDecoder(bytes.NewReader(src))
+	dec.UseNumber()
+	err := dec.Decode(&v)
 	if err != nil {
 		// We expect valid JSON
 		panic(err)
-- 
2.43.0


From 1f987322792eea0425071b4beb7b85a6cdc0ee5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:55 +0000
Subject: [PATCH 53/63] fix: report a hcldec block spec without a block type

The block_type argument is required unless the spec has a label to take it
from. The other block spec types report when it is missing, but a block spec
was accepted and then looked for blocks with an empty type name.
---
 cmd/hcldec/spec.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cmd/hcldec/spec.go b/cmd/hcldec/spec.go
index 7aa1a2e..3353b0f 100644
--- a/cmd/hcldec/spec.go
+++ b/cmd/hcldec/spec.go
@@ -256,6 +256,16 @@ func decodeBlockSpec(body hcl.Body, impliedName string) (hcldec.Spec, hcl.Diagno
 	diags = append(diags, nestedDiags...)
 	spec.Nested = nested
 
+	if spec.TypeName == "" {
+		diags = append(diags, &hcl.Diagnostic{
+			Severity: hcl.DiagError,
+			Summary:  "Missing block_type in block spec",
+			Detail:   "The block_type attribute is required, to specify the block type name that is expected in an input HCL file.",
+			Subject:  body.MissingItemRange().Ptr(),
+		})
+		return errSpec, diags
+	}
+
 	return spec, diags
 }
 
-- 
2.43.0


From 82cbfdb1335ec72fdc043bdd780af48ebfdaf3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:20:51 +0000
Subject: [PATCH 54/63] fix: report hcldec results that JSON cannot represent

An infinite or unknown number inside a map was not noticed by the encoder,
which then produced invalid JSON and crashed the command. It is now an error
like it is for the same number outside of a map.
---
 cmd/hcldec/main.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cmd/hcldec/main.go b/cmd/hcldec/main.go
index 237b5a5..8cc1c34 100644
--- a/cmd/hcldec/main.go
+++ b/cmd/hcldec/main.go
@@ -208,7 +208,10 @@ func realmain(args []string) error {
 	// that refers to a missing item, but that'll probably be annoying for
 	// a consumer of our output to deal with so we'll just strip those
 	// out and reduce to only the non-null values.
-	out = stripJSONNullProperties(out)
+	out, err = stripJSONNullProperties(out)
+	if err != nil {
+		return err
+	}
 
 	target := os.Stdout
 	if *outputFile != "" {
@@ -331,7 +334,7 @@ func showVarRefsJSON(vars []hcl.Traversal, ctx *hcl.EvalContext) error {
 	return nil
 }
 
-func stripJSONNullProperties(src []byte) []byte {
+func stripJSONNullProperties(src []byte) ([]byte, error) {
 	// Numbers are kept as they were written, because they may need more
 	// precision than a float64 has.
 	var v interface{}
@@ -339,17 +342,14 @@ func stripJSONNullProperties(src []byte) []byte {
 	dec.UseNumber()
 	err := dec.Decode(&v)
 	if err != nil {
-		// We expect valid JSON
-		panic(err)
+		// The cty encoder doesn't notice map elements that have no JSON
+		// representation, such as infinities, and so produces invalid JSON.
+		return nil, fmt.Errorf("the result cannot be represented in JSON")
 	}
 
 	v = stripNullMapElements(v)
 
-	new, err := json.Marshal(v)
-	if err != nil {
-		panic(err)
-	}
-	return new
+	return json.Marshal(v)
 }
 
 func stripNullMapElements(v interface{}) interface{} {
-- 
2.43.0


From 7d646609734362da8d4646226fd2049a2f455427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:24:27 +0000
Subject: [PATCH 55/63] fix: report inconsistent types in hcldec block maps

Blocks that decode to values of different types, for example because of a
default spec whose candidates have different types, crashed the decoding of
a block map. It is now reported in the same way as for block lists and sets.
---
 hcldec/spec.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/hcldec/spec.go b/hcldec/spec.go
index 155941c..c690089 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -956,6 +956,7 @@ func (s *BlockMapSpec) decode(content *hcl.BodyContent, blockLabels []blockLabel
 		return cty.MapValEmpty(s.Nested.impliedType()), diags
 	}
 
+	inconsistent := false
 	var ctyMap func(map[string]interface{}, int) cty.Value
 	ctyMap = func(raw map[string]interface{}, depth int) cty.Value {
 		vals := make(map[string]cty.Value, len(raw))
@@ -968,10 +969,31 @@ func (s *BlockMapSpec) decode(content *hcl.BodyContent, blockLabels []blockLabel
 				vals[k] = ctyMap(v.(map[string]interface{}), depth-1)
 			}
 		}
+		list := make([]cty.Value, 0, len(vals))
+		for _, v := range vals {
+			list = append(list, v)
+		}
+		if inconsistentType(list) >= 0 {
+			// Bail early here so we won't panic below in cty.MapVal
+			inconsistent = true
+			return cty.DynamicVal
+		}
 		return cty.MapVal(vals)
 	}
 
-	return ctyMap(elems, len(s.LabelNames)), diags
+	ret := ctyMap(elems, len(s.LabelNames))
+	if inconsistent {
+		rng := s.sourceRange(content, blockLabels)
+		diags = append(diags, &hcl.Diagnostic{
+			Severity: hcl.DiagError,
+			Summary:  fmt.Sprintf("Unconsistent argument types in %s blocks", s.TypeName),
+			Detail:   "Corresponding attributes in all blocks of this type must be the same.",
+			Subject:  &rng,
+		})
+		return cty.DynamicVal, diags
+	}
+
+	return ret, diags
 }
 
 func (s *BlockMapSpec) impliedType() cty.Type {
-- 
2.43.0


From 5aa0ca3b36e1a14cbb7830d24c141cf1a458efec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:28:04 +0000
Subject: [PATCH 56/63] fix: do not format an invalid file that is given to
 hclfmt twice

With -check a file with syntax errors is left alone. If its name was given
twice then the parser had the file cached the second time and returned no
errors, so the file was formatted and overwritten after all.
---
 cmd/hclfmt/main.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/hclfmt/main.go b/cmd/hclfmt/main.go
index 5223897..fb4f0f8 100644
--- a/cmd/hclfmt/main.go
+++ b/cmd/hclfmt/main.go
@@ -27,6 +27,7 @@ var (
 var parser = hclparse.NewParser()
 var diagWr hcl.DiagnosticWriter // initialized in init
 var checkErrs = false
+var invalid = map[string]bool{} // files found invalid with -check
 var changed []string
 
 func init() {
@@ -119,10 +120,16 @@ func processFile(fn string, in *os.File) error {
 	}
 
 	if *check {
+		if invalid[fn] {
+			// Already reported. The parser does not return the errors again
+			// for a file it has already seen.
+			return nil
+		}
 		_, diags := parser.ParseHCL(inSrc, fn)
 		diagWr.WriteDiagnostics(diags)
 		if diags.HasErrors() {
 			checkErrs = true
+			invalid[fn] = true
 			return nil
 		}
 	}
-- 
2.43.0


From 7948496ce9b74469a42fb1782566a9109e64f61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:39:05 +0000
Subject: [PATCH 57/63] fix: do not write into the label name lists of hcldec
 specs

Building the schema for a block map or block object appended the labels of
the nested spec directly to the list given by the caller. If that list had
spare capacity then the caller's memory was overwritten, and decoding with
the same spec in several goroutines was a data race.
---
 hcldec/spec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hcldec/spec.go b/hcldec/spec.go
index c690089..133ec9e 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -878,7 +878,7 @@ func (s *BlockMapSpec) blockHeaderSchemata() []hcl.BlockHeaderSchema {
 	return []hcl.BlockHeaderSchema{
 		{
 			Type:       s.TypeName,
-			LabelNames: append(s.LabelNames, findLabelSpecs(s.Nested)...),
+			LabelNames: append(s.LabelNames[:len(s.LabelNames):len(s.LabelNames)], findLabelSpecs(s.Nested)...),
 		},
 	}
 }
@@ -1049,7 +1049,7 @@ func (s *BlockObjectSpec) blockHeaderSchemata() []hcl.BlockHeaderSchema {
 	return []hcl.BlockHeaderSchema{
 		{
 			Type:       s.TypeName,
-			LabelNames: append(s.LabelNames, findLabelSpecs(s.Nested)...),
+			LabelNames: append(s.LabelNames[:len(s.LabelNames):len(s.LabelNames)], findLabelSpecs(s.Nested)...),
 		},
 	}
 }
-- 
2.43.0


From 51008867c0d4118d5a82ff15fd82749bb896ab31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:39:08 +0000
Subject: [PATCH 58/63] fix: data race when formatting in several goroutines

The formatter wrote spacing into a placeholder token that was shared by all
calls.
---
 hclwrite/format.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/hclwrite/format.go b/hclwrite/format.go
index 7807a3f..d70ba63 100644
--- a/hclwrite/format.go
+++ b/hclwrite/format.go
@@ -6,14 +6,6 @@ import (
 
 var inKeyword = hclsyntax.Keyword([]byte{'i', 'n'})
 
-// placeholder token used when we don't have a token but we don't want
-// to pass a real "nil" and complicate things with nil pointer checks
-var nilToken = &Token{
-	Type:         hclsyntax.TokenNil,
-	Bytes:        []byte{},
-	SpacesBefore: 0,
-}
-
 // format rewrites tokens within the given sequence, in-place, to adjust the
 // whitespace around their content to achieve canonical formatting.
 func format(tokens Tokens) {
@@ -108,6 +100,15 @@ func formatIndent(lines []formatLine) {
 }
 
 func formatSpaces(lines []formatLine) {
+	// placeholder token used when we don't have a token but we don't want
+	// to pass a real "nil" and complicate things with nil pointer checks.
+	// We might write to it below, so it can't be shared between calls.
+	nilToken := &Token{
+		Type:         hclsyntax.TokenNil,
+		Bytes:        []byte{},
+		SpacesBefore: 0,
+	}
+
 	for _, line := range lines {
 		for i, token := range line.lead {
 			var before, after *Token
-- 
2.43.0


From 9451c3ed4a328c605d8c73fbbaad728a2f6c14dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:40:35 +0000
Subject: [PATCH 59/63] fix: data race when calling user functions in several
 goroutines

The context that all functions of a body share is obtained at the first
call. Concurrent calls read and wrote it without any synchronisation.
---
 ext/userfunc/decode.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ext/userfunc/decode.go b/ext/userfunc/decode.go
index 2f3ce64..03b776a 100644
--- a/ext/userfunc/decode.go
+++ b/ext/userfunc/decode.go
@@ -1,6 +1,8 @@
 package userfunc
 
 import (
+	"sync"
+
 	"github.com/hashicorp/hcl2/hcl"
 	"github.com/zclconf/go-cty/cty"
 	"github.com/zclconf/go-cty/cty/function"
@@ -40,9 +42,13 @@ func decodeUserFunctions(body hcl.Body, blockType string, contextFunc ContextFun
 
 	// first call to getBaseCtx will populate context, and then the same
 	// context will be used for all subsequent calls. It's assumed that
-	// all functions in a given body should see an identical context.
+	// all functions in a given body should see an identical context. The
+	// functions might be called concurrently, so access to it is guarded.
 	var baseCtx *hcl.EvalContext
+	var baseCtxLock sync.Mutex
 	getBaseCtx := func() *hcl.EvalContext {
+		baseCtxLock.Lock()
+		defer baseCtxLock.Unlock()
 		if baseCtx == nil {
 			if contextFunc != nil {
 				baseCtx = contextFunc()
-- 
2.43.0


From 69ea22698b0bcbeeae453a18f6c63c70f6e63605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:43:13 +0000
Subject: [PATCH 60/63] fix: source ranges of traversals and calls in JSON
 strings

References and static calls are written as strings in JSON. The position of
their first character was taken to be that of the opening quote, so all of
their source ranges started and ended one character too early. The same
strings read as templates already had correct positions.
---
 hcl/json/structure.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/hcl/json/structure.go b/hcl/json/structure.go
index 74847c7..f4209a4 100644
--- a/hcl/json/structure.go
+++ b/hcl/json/structure.go
@@ -569,7 +569,13 @@ func (e *expression) AsTraversal() hcl.Traversal {
 
 	switch v := e.src.(type) {
 	case *stringVal:
-		traversal, diags := hclsyntax.ParseTraversalAbs([]byte(v.Value), v.SrcRange.Filename, v.SrcRange.Start)
+		traversal, diags := hclsyntax.ParseTraversalAbs([]byte(v.Value), v.SrcRange.Filename, hcl.Pos{
+			Line: v.SrcRange.Start.Line,
+
+			// skip over the opening quote mark
+			Byte:   v.SrcRange.Start.Byte + 1,
+			Column: v.SrcRange.Start.Column + 1,
+		})
 		if diags.HasErrors() {
 			return nil
 		}
@@ -586,7 +592,13 @@ func (e *expression) ExprCall() *hcl.StaticCall {
 
 	switch v := e.src.(type) {
 	case *stringVal:
-		expr, diags := hclsyntax.ParseExpression([]byte(v.Value), v.SrcRange.Filename, v.SrcRange.Start)
+		expr, diags := hclsyntax.ParseExpression([]byte(v.Value), v.SrcRange.Filename, hcl.Pos{
+			Line: v.SrcRange.Start.Line,
+
+			// skip over the opening quote mark
+			Byte:   v.SrcRange.Start.Byte + 1,
+			Column: v.SrcRange.Start.Column + 1,
+		})
 		if diags.HasErrors() {
 			return nil
 		}
-- 
2.43.0


From 9899a4c1523a123dbbbb93c90e91c35403347fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:11:00 +0000
Subject: [PATCH 61/63] fix: block tuple, object and attribute specs can not be
 sent with gob

---
 hcldec/gob.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hcldec/gob.go b/hcldec/gob.go
index e2027cf..08a6462 100644
--- a/hcldec/gob.go
+++ b/hcldec/gob.go
@@ -16,8 +16,11 @@ func init() {
 	gob.Register((*ExprSpec)(nil))
 	gob.Register((*BlockSpec)(nil))
 	gob.Register((*BlockListSpec)(nil))
+	gob.Register((*BlockTupleSpec)(nil))
 	gob.Register((*BlockSetSpec)(nil))
 	gob.Register((*BlockMapSpec)(nil))
+	gob.Register((*BlockObjectSpec)(nil))
+	gob.Register((*BlockAttrsSpec)(nil))
 	gob.Register((*BlockLabelSpec)(nil))
 	gob.Register((*DefaultSpec)(nil))
 }
-- 
2.43.0


From 7504b4714f2f3822afb6871e8ba7579e84640410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:27:10 +0000
Subject: [PATCH 62/63] fix: an error in a JSON string is reported one byte too
 late

---
 hcl/json/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hcl/json/parser.go b/hcl/json/parser.go
index 4de642f..5366bd2 100644
--- a/hcl/json/parser.go
+++ b/hcl/json/parser.go
@@ -403,7 +403,7 @@ func parseString(p *peeker) (node, hcl.Diagnostics) {
 	if err != nil {
 		var errRange hcl.Range
 		if serr, ok := err.(*json.SyntaxError); ok {
-			errOfs := serr.Offset
+			errOfs := serr.Offset - 1 // the offset is after the wrong byte
 			errPos := tok.Range.Start
 			errPos.Byte += int(errOfs)
 
-- 
2.43.0


From 82ce8eb6c00d8e051f8db84a47ac2dd916cffb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:15:16 +0000
Subject: [PATCH 63/63] fix: dynblock: report a required argument that an
 earlier partial decode consumed

---
 ext/dynblock/expand_body.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/ext/dynblock/expand_body.go b/ext/dynblock/expand_body.go
index 37e0e90..faf96db 100644
--- a/ext/dynblock/expand_body.go
+++ b/ext/dynblock/expand_body.go
@@ -33,6 +33,7 @@ func (b *expandBody) Content(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Diag
 	blocks, blockDiags := b.expandBlocks(schema, rawContent.Blocks, false)
 	diags = append(diags, blockDiags...)
 	attrs := b.prepareAttributes(rawContent.Attributes)
+	diags = append(diags, b.checkHiddenRequired(schema, rawContent.Attributes)...)
 
 	content := &hcl.BodyContent{
 		Attributes:       attrs,
@@ -52,6 +53,7 @@ func (b *expandBody) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, h
 	blocks, blockDiags := b.expandBlocks(schema, rawContent.Blocks, true)
 	diags = append(diags, blockDiags...)
 	attrs := b.prepareAttributes(rawContent.Attributes)
+	diags = append(diags, b.checkHiddenRequired(schema, rawContent.Attributes)...)
 
 	content := &hcl.BodyContent{
 		Attributes:       attrs,
@@ -118,6 +120,26 @@ func (b *expandBody) extendSchema(schema *hcl.BodySchema) *hcl.BodySchema {
 	return extSchema
 }
 
+// checkHiddenRequired reports the required attributes that are present in the
+// original body but hidden here because an earlier PartialContent call already
+// consumed them, and so are missing from our own point of view.
+func (b *expandBody) checkHiddenRequired(schema *hcl.BodySchema, rawAttrs hcl.Attributes) hcl.Diagnostics {
+	var diags hcl.Diagnostics
+	for _, attrS := range schema.Attributes {
+		_, hidden := b.hiddenAttrs[attrS.Name]
+		_, exists := rawAttrs[attrS.Name]
+		if attrS.Required && hidden && exists {
+			diags = append(diags, &hcl.Diagnostic{
+				Severity: hcl.DiagError,
+				Summary:  "Missing required argument",
+				Detail:   fmt.Sprintf("The argument %q is required, but no definition was found.", attrS.Name),
+				Subject:  b.original.MissingItemRange().Ptr(),
+			})
+		}
+	}
+	return diags
+}
+
 func (b *expandBody) prepareAttributes(rawAttrs hcl.Attributes) hcl.Attributes {
 	if len(b.hiddenAttrs) == 0 && b.iteration == nil {
 		// Easy path: just pass through the attrs from the original body verbatim
-- 
2.43.0

