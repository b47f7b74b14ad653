From 4e16fb3ed409513265961e17b08a6e638cd1e0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:18 +0000
Subject: [PATCH 01/94] fix: keep the parentheses of a number used as the
 operand of a dot expression

---
 build/print.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/build/print.go b/build/print.go
index 0492dd4..bb5df74 100644
--- a/build/print.go
+++ b/build/print.go
@@ -659,7 +659,14 @@ func (p *printer) expr(v Expr, outerPrec int) {
 
 	case *DotExpr:
 		addParen(precSuffix)
-		p.expr(v.X, precSuffix)
+		if _, ok := v.X.(*LiteralExpr); ok {
+			// Numbers need parentheses here: `(1).foo` is not the same as `1.foo`.
+			p.printf("(")
+			p.expr(v.X, precLow)
+			p.printf(")")
+		} else {
+			p.expr(v.X, precSuffix)
+		}
 		_, xEnd := v.X.Span()
 		isMultiline := isDifferentLines(&v.NamePos, &xEnd)
 		if isMultiline {
-- 
2.43.0


From e451e27802a69ddd3bf3b8338ed961e28b862ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 02/94] fix: print pending end-of-line comments before the line
 break that precedes a line comment

---
 build/print.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/build/print.go b/build/print.go
index bb5df74..b4121a4 100644
--- a/build/print.go
+++ b/build/print.go
@@ -190,6 +190,7 @@ func (p *printer) file(f *File) {
 	p.statements(f.Stmt)
 
 	for _, com := range f.After {
+		p.newlineIfNeeded()
 		p.printf("%s", strings.TrimSpace(com.Token))
 		p.newline()
 	}
@@ -575,8 +576,10 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		// Line comments must be at the current margin.
 		p.trim()
 		if p.indent() > 0 {
-			// There's other text on the line. Start a new line.
-			p.printf("\n")
+			// There's other text on the line. Start a new line, ending the current one with
+			// its pending end-of-line comments.
+			p.newline()
+			p.trim()
 		}
 		// Re-indent to margin.
 		p.printf("%*s", p.margin, "")
-- 
2.43.0


From 9a19190566c67938f3806f4a99fddb9975c3e7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 03/94] fix: no trailing comma after the last element of an
 unparenthesized tuple

---
 build/print.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/build/print.go b/build/print.go
index b4121a4..3041469 100644
--- a/build/print.go
+++ b/build/print.go
@@ -1121,6 +1121,9 @@ func needsTrailingComma(mode seqMode, v Expr) bool {
 		return false
 	case modeParen:
 		return false
+	case modeSeq:
+		// A trailing comma is not allowed e.g. after the loop variables of a comprehension.
+		return false
 	case modeCall:
 		// *args and **kwargs in fn calls
 		switch v := v.(type) {
-- 
2.43.0


From cfeeb99073718478eac0692d8c8a5dc3f5714632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:20 +0000
Subject: [PATCH 04/94] fix: align the end-of-line comments of the last element
 of a sequence with its elements

---
 build/print.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/build/print.go b/build/print.go
index 3041469..e4004c9 100644
--- a/build/print.go
+++ b/build/print.go
@@ -118,6 +118,13 @@ func (p *printer) indent() int {
 // in brackets of some kind, use breakline instead.
 func (p *printer) newline() {
 	p.needsNewLine = false
+	p.flushComments()
+	p.trim()
+	p.printf("\n%*s", p.margin, "")
+}
+
+// flushComments prints the pending end-of-line comments. It must be followed by a newline.
+func (p *printer) flushComments() {
 	if len(p.comment) > 0 {
 		p.printf("  ")
 		for i, com := range p.comment {
@@ -129,9 +136,6 @@ func (p *printer) newline() {
 		}
 		p.comment = p.comment[:0]
 	}
-
-	p.trim()
-	p.printf("\n%*s", p.margin, "")
 }
 
 // softNewline postpones a call to newline to the next call of p.newlineIfNeeded()
@@ -1101,6 +1105,11 @@ func (p *printer) seq(brack string, start *Position, list *[]Expr, end *End, mod
 			p.printf(",")
 		}
 	}
+	if mode != modeDef {
+		// If there are several pending end-of-line comments, all of them but the first one get lines
+		// of their own, which should be aligned with the elements, not with the closing bracket.
+		p.flushComments()
+	}
 	// Final comments.
 	if end != nil {
 		for _, com := range end.Before {
-- 
2.43.0


From b2591b8a9f055945a5c3f6f1bb770dacea42347d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 05/94] fix: keep line comments inside the brackets of index
 and slice expressions attached to those expressions

---
 build/lex.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/build/lex.go b/build/lex.go
index 30639ea..3c6156d 100644
--- a/build/lex.go
+++ b/build/lex.go
@@ -879,8 +879,33 @@ func (in *input) assignSuffixComments() {
 func (in *input) assignLineComments() {
 	// Assign line comments to syntax immediately following.
 	line := in.lineComments
+
+	// Index and slice expressions being visited, with line comments that precede their closing
+	// brackets but don't precede any of their children. They can't be moved past the bracket and
+	// become suffix comments of the expression.
+	var brackets []Expr
+	closeBrackets := func(start int) {
+		for n := len(brackets); n > 0; n-- {
+			_, end := brackets[n-1].Span()
+			if start >= 0 && end.Byte > start {
+				break
+			}
+			var inner []Comment
+			for len(line) > 0 && line[0].Start.Byte < end.Byte {
+				if line[0].Token != "" {
+					inner = append(inner, line[0])
+				}
+				line = line[1:]
+			}
+			com := brackets[n-1].Comment()
+			com.Suffix = append(inner, com.Suffix...)
+			brackets = brackets[:n-1]
+		}
+	}
+
 	for _, x := range in.pre {
 		start, _ := x.Span()
+		closeBrackets(start.Byte)
 		xcom := x.Comment()
 		for len(line) > 0 && start.Byte >= line[0].Start.Byte {
 			xcom.Before = append(xcom.Before, line[0])
@@ -891,7 +916,12 @@ func (in *input) assignLineComments() {
 		sort.SliceStable(xcom.Before, func(i, j int) bool {
 			return xcom.Before[i].Start.Byte < xcom.Before[j].Start.Byte
 		})
+		switch x.(type) {
+		case *IndexExpr, *SliceExpr:
+			brackets = append(brackets, x)
+		}
 	}
+	closeBrackets(-1)
 
 	// Remaining line comments go at end of file.
 	in.file.After = append(in.file.After, line...)
-- 
2.43.0


From 5093e197f9a39f5b2e0b2e50280334ff74e7fd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 06/94] fix: print pending end-of-line comments as line
 comments after an opening bracket

---
 build/print.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/build/print.go b/build/print.go
index e4004c9..23eef55 100644
--- a/build/print.go
+++ b/build/print.go
@@ -581,7 +581,12 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		p.trim()
 		if p.indent() > 0 {
 			// There's other text on the line. Start a new line, ending the current one with
-			// its pending end-of-line comments.
+			// its pending end-of-line comments. After an opening bracket they would become a
+			// part of the line comments, print them like that.
+			if strings.ContainsRune("([{", rune(p.Bytes()[p.Len()-1])) {
+				before = append(append([]Comment{}, p.comment...), before...)
+				p.comment = p.comment[:0]
+			}
 			p.newline()
 			p.trim()
 		}
-- 
2.43.0


From 2228a689c34e2f990730854b15760b81ea119bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 07/94] fix: don't lose line comments of trailing duplicates in
 string lists

---
 build/rewrite.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index e500beb..1ce1bc3 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -537,13 +537,14 @@ func deduplicateStringList(x Expr) {
 		return
 	}
 
-	list.List = deduplicateStringExprs(list.List)
+	list.List = deduplicateStringExprs(list.List, &list.End)
 }
 
 // deduplicateStringExprs removes duplicate string expressions from a slice
 // without reordering its elements.
-// Any suffix-comments are lost, any before- and after-comments are preserved.
-func deduplicateStringExprs(list []Expr) []Expr {
+// Any suffix-comments are lost, any before- and after-comments are preserved
+// (those of trailing duplicates are moved to the closing bracket).
+func deduplicateStringExprs(list []Expr, end *End) []Expr {
 	var comments []Comment
 	alreadySeen := make(map[string]bool)
 	var deduplicated []Expr
@@ -569,6 +570,9 @@ func deduplicateStringExprs(list []Expr) []Expr {
 		}
 		deduplicated = append(deduplicated, value)
 	}
+	if len(comments) > 0 {
+		end.Before = append(comments, end.Before...)
+	}
 	return deduplicated
 }
 
@@ -582,7 +586,7 @@ func SortStringList(x Expr) {
 	}
 
 	if doNotSort(list.List[0]) {
-		list.List = deduplicateStringExprs(list.List)
+		list.List = deduplicateStringExprs(list.List, &list.End)
 		return
 	}
 
@@ -1198,7 +1202,7 @@ func sortUseRepoPositionals(f *File, _ *Rewriter) {
 			// Respect the "do not sort" comment on both the first argument and the first repository
 			// name.
 			if doNotSort(call) || doNotSort(call.List[0]) || doNotSort(call.List[1]) {
-				call.List = deduplicateStringExprs(call.List)
+				call.List = deduplicateStringExprs(call.List, &call.End)
 			} else {
 				// Keyword arguments do not have to be sorted here as this has already been done by
 				// the generic callsort rewriter pass.
-- 
2.43.0


From 327317e2f24910ee2f5a0cf74bbd02dcb1840ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 08/94] fix: don't skip list elements when sorting a list with
 removed duplicates

---
 build/rewrite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index 1ce1bc3..bf9b766 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -677,7 +677,7 @@ func sortStringExprs(list []Expr) []Expr {
 			list = append(list[:(i+len(chunk))], list[j:]...)
 		}
 
-		i = j
+		i += len(chunk)
 	}
 
 	return list
-- 
2.43.0


From 5b92d8129b844bf22003b212d6954762b8ead885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 09/94] fix: give the not operator its precedence between
 and/or and the comparisons

---
 build/parse.y    |   3 +-
 build/parse.y.go | 268 ++++++++++++++++++++++++-----------------------
 build/print.go   |  15 ++-
 3 files changed, 148 insertions(+), 138 deletions(-)

diff --git a/build/parse.y b/build/parse.y
index 0eaf470..cf14ac8 100644
--- a/build/parse.y
+++ b/build/parse.y
@@ -194,6 +194,7 @@ package build
 %left  _IS
 %left  _OR
 %left  _AND
+%right _LOGICAL_NOT
 %left  '<' '>' _EQ _NE _LE _GE _NOT _IN
 %left  '|'
 %left  '^'
@@ -836,7 +837,7 @@ test:
 			},
 		}
 	}
-|	_NOT test %prec _UNARY { $$ = unary($1, $<tok>1, $2) }
+|	_NOT test %prec _LOGICAL_NOT { $$ = unary($1, $<tok>1, $2) }
 |	'-' test  %prec _UNARY { $$ = unary($1, $<tok>1, $2) }
 |	'+' test  %prec _UNARY { $$ = unary($1, $<tok>1, $2) }
 |	'~' test  %prec _UNARY { $$ = unary($1, $<tok>1, $2) }
diff --git a/build/parse.y.go b/build/parse.y.go
index 11dec91..eb98970 100644
--- a/build/parse.y.go
+++ b/build/parse.y.go
@@ -71,7 +71,8 @@ const _INDENT = 57377
 const _UNINDENT = 57378
 const ShiftInstead = 57379
 const _ASSERT = 57380
-const _UNARY = 57381
+const _LOGICAL_NOT = 57381
+const _UNARY = 57382
 
 var yyToknames = [...]string{
 	"$end",
@@ -134,6 +135,7 @@ var yyToknames = [...]string{
 	"ShiftInstead",
 	"'\\n'",
 	"_ASSERT",
+	"_LOGICAL_NOT",
 	"_UNARY",
 	"';'",
 }
@@ -144,7 +146,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line build/parse.y:1058
+//line build/parse.y:1059
 
 // Go helper code.
 
@@ -525,11 +527,11 @@ var yyPact = [...]int16{
 	192, 72, -1000, 173, 971, -1000, -1000, -1000, -10, 49,
 	590, 68, 971, 151, 88, 971, 971, 971, 971, -1000,
 	-1000, -1000, 217, 971, 971, 971, -1000, 175, 13, -1000,
-	-1000, -41, 365, 78, 151, 971, 971, 971, 204, 971,
+	-1000, -42, 365, 78, 151, 971, 971, 971, 204, 971,
 	971, 106, -1000, 971, 971, 971, 971, 971, 971, 971,
 	971, 971, 971, 971, 971, 971, 3, 971, 971, 971,
 	971, 971, 971, 971, 971, 971, 216, 180, 54, 200,
-	971, 191, 206, -1000, 152, 21, 21, -1000, -1000, -1000,
+	971, 191, 206, -1000, 152, 21, 21, 813, -1000, -1000,
 	-1000, 200, 136, 547, 200, 73, 110, 205, 461, 200,
 	214, 590, 8, -1000, -35, 632, -1000, -1000, -1000, 971,
 	72, 204, 204, 684, 590, 174, 365, -1000, -1000, -1000,
@@ -605,7 +607,7 @@ var yyChk = [...]int16{
 	22, 23, 45, 46, 38, 34, 32, -17, 11, 5,
 	17, -9, -8, -7, -24, 7, 43, -13, -13, -13,
 	-13, 5, -15, -13, -19, -35, -36, -19, -13, -37,
-	-15, -13, 11, 33, -47, 62, -39, 59, -32, 37,
+	-15, -13, 11, 33, -47, 63, -39, 59, -32, 37,
 	9, -17, -17, -13, -13, -17, 13, 34, -13, -13,
 	-13, -13, -13, -13, -13, -13, -13, -13, -13, -13,
 	-13, 37, -13, -13, -13, -13, -13, -13, -13, -13,
@@ -660,7 +662,7 @@ var yyTok1 = [...]int8{
 	3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
 	3, 3, 3, 3, 3, 3, 3, 4, 22, 3,
 	5, 6, 7, 8, 9, 10, 11, 12, 3, 3,
-	3, 3, 3, 3, 3, 3, 3, 3, 13, 62,
+	3, 3, 3, 3, 3, 3, 3, 3, 13, 63,
 	14, 15, 16, 3, 3, 3, 3, 3, 3, 3,
 	3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
 	3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
@@ -674,7 +676,7 @@ var yyTok2 = [...]int8{
 	2, 3, 25, 26, 27, 28, 29, 30, 31, 32,
 	33, 34, 35, 36, 37, 38, 39, 40, 41, 42,
 	43, 44, 45, 46, 47, 48, 49, 50, 51, 52,
-	53, 54, 55, 56, 57, 58, 60, 61,
+	53, 54, 55, 56, 57, 58, 60, 61, 62,
 }
 
 var yyTok3 = [...]int8{
@@ -1020,14 +1022,14 @@ yydefault:
 
 	case 1:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:218
+//line build/parse.y:219
 		{
 			yylex.(*input).file = &File{Stmt: yyDollar[1].exprs}
 			return 0
 		}
 	case 2:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line build/parse.y:225
+//line build/parse.y:226
 		{
 			statements := yyDollar[4].exprs
 			if yyDollar[2].exprs != nil {
@@ -1049,20 +1051,20 @@ yydefault:
 		}
 	case 3:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:245
+//line build/parse.y:246
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 		}
 	case 6:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:253
+//line build/parse.y:254
 		{
 			yyVAL.exprs = nil
 			yyVAL.lastStmt = nil
 		}
 	case 7:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:258
+//line build/parse.y:259
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 			yyVAL.lastStmt = yyDollar[1].lastStmt
@@ -1076,21 +1078,21 @@ yydefault:
 		}
 	case 8:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:270
+//line build/parse.y:271
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 			yyVAL.lastStmt = nil
 		}
 	case 9:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:276
+//line build/parse.y:277
 		{
 			yyVAL.exprs = nil
 			yyVAL.lastStmt = nil
 		}
 	case 10:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:281
+//line build/parse.y:282
 		{
 			// If this statement follows a comment block,
 			// attach the comments to the statement.
@@ -1123,7 +1125,7 @@ yydefault:
 		}
 	case 11:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:312
+//line build/parse.y:313
 		{
 			// Blank line; sever last rule from future comments.
 			yyVAL.exprs = yyDollar[1].exprs
@@ -1131,7 +1133,7 @@ yydefault:
 		}
 	case 12:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:318
+//line build/parse.y:319
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 			yyVAL.lastStmt = yyDollar[1].lastStmt
@@ -1145,14 +1147,14 @@ yydefault:
 		}
 	case 13:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:332
+//line build/parse.y:333
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 			yyVAL.lastStmt = yyDollar[1].exprs[len(yyDollar[1].exprs)-1]
 		}
 	case 14:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:337
+//line build/parse.y:338
 		{
 			yyVAL.exprs = []Expr{yyDollar[1].expr}
 			yyVAL.lastStmt = yyDollar[1].expr
@@ -1166,7 +1168,7 @@ yydefault:
 		}
 	case 15:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line build/parse.y:351
+//line build/parse.y:352
 		{
 			yyVAL.def_header = &DefStmt{
 				Function: Function{
@@ -1180,14 +1182,14 @@ yydefault:
 		}
 	case 17:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:366
+//line build/parse.y:367
 		{
 			yyDollar[1].def_header.Type = yyDollar[3].expr
 			yyVAL.def_header = yyDollar[1].def_header
 		}
 	case 18:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:373
+//line build/parse.y:374
 		{
 			yyDollar[1].def_header.Function.Body = yyDollar[3].exprs
 			yyDollar[1].def_header.ColonPos = yyDollar[2].pos
@@ -1196,7 +1198,7 @@ yydefault:
 		}
 	case 19:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line build/parse.y:380
+//line build/parse.y:381
 		{
 			yyVAL.expr = &ForStmt{
 				For:  yyDollar[1].pos,
@@ -1208,14 +1210,14 @@ yydefault:
 		}
 	case 20:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:390
+//line build/parse.y:391
 		{
 			yyVAL.expr = yyDollar[1].ifstmt
 			yyVAL.lastStmt = yyDollar[1].lastStmt
 		}
 	case 21:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:398
+//line build/parse.y:399
 		{
 			yyVAL.ifstmt = &IfStmt{
 				If:   yyDollar[1].pos,
@@ -1226,7 +1228,7 @@ yydefault:
 		}
 	case 22:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line build/parse.y:407
+//line build/parse.y:408
 		{
 			yyVAL.ifstmt = yyDollar[1].ifstmt
 			inner := yyDollar[1].ifstmt
@@ -1245,7 +1247,7 @@ yydefault:
 		}
 	case 24:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:428
+//line build/parse.y:429
 		{
 			yyVAL.ifstmt = yyDollar[1].ifstmt
 			inner := yyDollar[1].ifstmt
@@ -1258,26 +1260,26 @@ yydefault:
 		}
 	case 27:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:445
+//line build/parse.y:446
 		{
 			yyVAL.exprs = append([]Expr{yyDollar[1].expr}, yyDollar[2].exprs...)
 			yyVAL.lastStmt = yyVAL.exprs[len(yyVAL.exprs)-1]
 		}
 	case 28:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:451
+//line build/parse.y:452
 		{
 			yyVAL.exprs = []Expr{}
 		}
 	case 29:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:455
+//line build/parse.y:456
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 31:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:462
+//line build/parse.y:463
 		{
 			yyVAL.expr = &ReturnStmt{
 				Return: yyDollar[1].pos,
@@ -1286,7 +1288,7 @@ yydefault:
 		}
 	case 32:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:469
+//line build/parse.y:470
 		{
 			yyVAL.expr = &ReturnStmt{
 				Return: yyDollar[1].pos,
@@ -1294,19 +1296,19 @@ yydefault:
 		}
 	case 33:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:474
+//line build/parse.y:475
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 34:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:475
+//line build/parse.y:476
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 35:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:477
+//line build/parse.y:478
 		{
 			yyVAL.expr = &BranchStmt{
 				Token:    yyDollar[1].tok,
@@ -1315,7 +1317,7 @@ yydefault:
 		}
 	case 36:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:484
+//line build/parse.y:485
 		{
 			yyVAL.expr = &BranchStmt{
 				Token:    yyDollar[1].tok,
@@ -1324,7 +1326,7 @@ yydefault:
 		}
 	case 37:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:491
+//line build/parse.y:492
 		{
 			yyVAL.expr = &BranchStmt{
 				Token:    yyDollar[1].tok,
@@ -1333,13 +1335,13 @@ yydefault:
 		}
 	case 42:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:505
+//line build/parse.y:506
 		{
 			yyVAL.expr = yyDollar[1].string
 		}
 	case 43:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:509
+//line build/parse.y:510
 		{
 			yyVAL.expr = &DotExpr{
 				X:       yyDollar[1].expr,
@@ -1350,7 +1352,7 @@ yydefault:
 		}
 	case 44:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line build/parse.y:518
+//line build/parse.y:519
 		{
 			load := &LoadStmt{
 				Load:         yyDollar[1].pos,
@@ -1366,7 +1368,7 @@ yydefault:
 		}
 	case 45:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:532
+//line build/parse.y:533
 		{
 			yyVAL.expr = &CallExpr{
 				X:              yyDollar[1].expr,
@@ -1379,7 +1381,7 @@ yydefault:
 		}
 	case 46:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:543
+//line build/parse.y:544
 		{
 			yyVAL.expr = &IndexExpr{
 				X:          yyDollar[1].expr,
@@ -1390,7 +1392,7 @@ yydefault:
 		}
 	case 47:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line build/parse.y:552
+//line build/parse.y:553
 		{
 			yyVAL.expr = &SliceExpr{
 				X:          yyDollar[1].expr,
@@ -1403,7 +1405,7 @@ yydefault:
 		}
 	case 48:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line build/parse.y:563
+//line build/parse.y:564
 		{
 			yyVAL.expr = &SliceExpr{
 				X:           yyDollar[1].expr,
@@ -1418,7 +1420,7 @@ yydefault:
 		}
 	case 49:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:576
+//line build/parse.y:577
 		{
 			yyVAL.expr = &ListExpr{
 				Start:          yyDollar[1].pos,
@@ -1429,7 +1431,7 @@ yydefault:
 		}
 	case 50:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:585
+//line build/parse.y:586
 		{
 			yyVAL.expr = &Comprehension{
 				Curly:          false,
@@ -1442,7 +1444,7 @@ yydefault:
 		}
 	case 51:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:596
+//line build/parse.y:597
 		{
 			yyVAL.expr = &Comprehension{
 				Curly:          true,
@@ -1455,7 +1457,7 @@ yydefault:
 		}
 	case 52:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:607
+//line build/parse.y:608
 		{
 			exprValues := make([]Expr, 0, len(yyDollar[2].kvs))
 			for _, kv := range yyDollar[2].kvs {
@@ -1470,7 +1472,7 @@ yydefault:
 		}
 	case 53:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:620
+//line build/parse.y:621
 		{
 			yyVAL.expr = &SetExpr{
 				Start:          yyDollar[1].pos,
@@ -1481,7 +1483,7 @@ yydefault:
 		}
 	case 54:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:629
+//line build/parse.y:630
 		{
 			if len(yyDollar[2].exprs) == 1 && yyDollar[2].comma.Line == 0 {
 				// Just a parenthesized expression, not a tuple.
@@ -1503,49 +1505,49 @@ yydefault:
 		}
 	case 55:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:650
+//line build/parse.y:651
 		{
 			yyVAL.exprs = nil
 		}
 	case 56:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:654
+//line build/parse.y:655
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 		}
 	case 57:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:660
+//line build/parse.y:661
 		{
 			yyVAL.exprs = []Expr{yyDollar[2].expr}
 		}
 	case 58:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:664
+//line build/parse.y:665
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 60:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:671
+//line build/parse.y:672
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 61:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:675
+//line build/parse.y:676
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 62:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:679
+//line build/parse.y:680
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 63:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:684
+//line build/parse.y:685
 		{
 			yyVAL.loadargs = []*struct {
 				from Ident
@@ -1554,14 +1556,14 @@ yydefault:
 		}
 	case 64:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:688
+//line build/parse.y:689
 		{
 			yyDollar[1].loadargs = append(yyDollar[1].loadargs, yyDollar[3].loadarg)
 			yyVAL.loadargs = yyDollar[1].loadargs
 		}
 	case 65:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:694
+//line build/parse.y:695
 		{
 			start := yyDollar[1].string.Start.add("'")
 			if yyDollar[1].string.TripleQuote {
@@ -1583,7 +1585,7 @@ yydefault:
 		}
 	case 66:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:711
+//line build/parse.y:712
 		{
 			start := yyDollar[3].string.Start.add("'")
 			if yyDollar[3].string.TripleQuote {
@@ -1602,103 +1604,103 @@ yydefault:
 		}
 	case 67:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:726
+//line build/parse.y:727
 		{
 			yyVAL.exprs = nil
 		}
 	case 68:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:730
+//line build/parse.y:731
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 		}
 	case 69:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:735
+//line build/parse.y:736
 		{
 			yyVAL.exprs = nil
 		}
 	case 70:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:739
+//line build/parse.y:740
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 		}
 	case 71:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:745
+//line build/parse.y:746
 		{
 			yyVAL.exprs = []Expr{yyDollar[1].expr}
 		}
 	case 72:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:749
+//line build/parse.y:750
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 73:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:756
+//line build/parse.y:757
 		{
 			yyVAL.exprs = []Expr{yyDollar[1].expr}
 		}
 	case 74:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:760
+//line build/parse.y:761
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 76:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:767
+//line build/parse.y:768
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 77:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:771
+//line build/parse.y:772
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 78:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:775
+//line build/parse.y:776
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, nil)
 		}
 	case 79:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:779
+//line build/parse.y:780
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 81:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:788
+//line build/parse.y:789
 		{
 			yyVAL.expr = typed(yyDollar[1].expr, yyDollar[3].expr)
 		}
 	case 82:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line build/parse.y:792
+//line build/parse.y:793
 		{
 			yyVAL.expr = binary(typed(yyDollar[1].expr, yyDollar[3].expr), yyDollar[4].pos, yyDollar[4].tok, yyDollar[5].expr)
 		}
 	case 83:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:796
+//line build/parse.y:797
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, typed(yyDollar[2].expr, yyDollar[4].expr))
 		}
 	case 84:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:800
+//line build/parse.y:801
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, typed(yyDollar[2].expr, yyDollar[4].expr))
 		}
 	case 86:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:807
+//line build/parse.y:808
 		{
 			tuple, ok := yyDollar[1].expr.(*TupleExpr)
 			if !ok || !tuple.NoBrackets {
@@ -1714,13 +1716,13 @@ yydefault:
 		}
 	case 87:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:822
+//line build/parse.y:823
 		{
 			yyVAL.expr = nil
 		}
 	case 90:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:830
+//line build/parse.y:831
 		{
 			yyVAL.expr = &LambdaExpr{
 				Function: Function{
@@ -1732,157 +1734,157 @@ yydefault:
 		}
 	case 91:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:839
+//line build/parse.y:840
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 92:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:840
+//line build/parse.y:841
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 93:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:841
+//line build/parse.y:842
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 94:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:842
+//line build/parse.y:843
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 95:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:843
+//line build/parse.y:844
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 96:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:844
+//line build/parse.y:845
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 97:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:845
+//line build/parse.y:846
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 98:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:846
+//line build/parse.y:847
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 99:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:847
+//line build/parse.y:848
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 100:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:848
+//line build/parse.y:849
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 101:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:849
+//line build/parse.y:850
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 102:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:850
+//line build/parse.y:851
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 103:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:851
+//line build/parse.y:852
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 104:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:852
+//line build/parse.y:853
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 105:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:853
+//line build/parse.y:854
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 106:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:854
+//line build/parse.y:855
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 107:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:855
+//line build/parse.y:856
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 108:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:856
+//line build/parse.y:857
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, "not in", yyDollar[4].expr)
 		}
 	case 109:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:857
+//line build/parse.y:858
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 110:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:858
+//line build/parse.y:859
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 111:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:859
+//line build/parse.y:860
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 112:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:860
+//line build/parse.y:861
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 113:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:861
+//line build/parse.y:862
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 114:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:862
+//line build/parse.y:863
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 115:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:863
+//line build/parse.y:864
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 116:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:865
+//line build/parse.y:866
 		{
 			if b, ok := yyDollar[3].expr.(*UnaryExpr); ok && b.Op == "not" {
 				yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, "is not", b.X)
@@ -1892,7 +1894,7 @@ yydefault:
 		}
 	case 117:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line build/parse.y:873
+//line build/parse.y:874
 		{
 			yyVAL.expr = &ConditionalExpr{
 				Then:      yyDollar[1].expr,
@@ -1904,55 +1906,55 @@ yydefault:
 		}
 	case 118:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:885
+//line build/parse.y:886
 		{
 			yyVAL.exprs = []Expr{yyDollar[1].expr}
 		}
 	case 119:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:889
+//line build/parse.y:890
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 120:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:894
+//line build/parse.y:895
 		{
 			yyVAL.expr = nil
 		}
 	case 122:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:900
+//line build/parse.y:901
 		{
 			yyVAL.exprs, yyVAL.comma = nil, Position{}
 		}
 	case 123:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:904
+//line build/parse.y:905
 		{
 			yyVAL.exprs, yyVAL.comma = yyDollar[1].exprs, yyDollar[2].pos
 		}
 	case 124:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:914
+//line build/parse.y:915
 		{
 			yyVAL.pos = Position{}
 		}
 	case 127:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:925
+//line build/parse.y:926
 		{
 			yyVAL.pos = yyDollar[1].pos
 		}
 	case 128:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:933
+//line build/parse.y:934
 		{
 			yyVAL.pos = Position{}
 		}
 	case 130:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:940
+//line build/parse.y:941
 		{
 			yyVAL.kv = &KeyValueExpr{
 				Key:   yyDollar[1].expr,
@@ -1962,37 +1964,37 @@ yydefault:
 		}
 	case 131:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:950
+//line build/parse.y:951
 		{
 			yyVAL.kvs = []*KeyValueExpr{yyDollar[1].kv}
 		}
 	case 132:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:954
+//line build/parse.y:955
 		{
 			yyVAL.kvs = append(yyDollar[1].kvs, yyDollar[3].kv)
 		}
 	case 133:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:959
+//line build/parse.y:960
 		{
 			yyVAL.kvs = nil
 		}
 	case 134:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:963
+//line build/parse.y:964
 		{
 			yyVAL.kvs = yyDollar[1].kvs
 		}
 	case 135:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:967
+//line build/parse.y:968
 		{
 			yyVAL.kvs = yyDollar[1].kvs
 		}
 	case 137:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:974
+//line build/parse.y:975
 		{
 			tuple, ok := yyDollar[1].expr.(*TupleExpr)
 			if !ok || !tuple.NoBrackets {
@@ -2008,7 +2010,7 @@ yydefault:
 		}
 	case 138:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:990
+//line build/parse.y:991
 		{
 			yyVAL.string = &StringExpr{
 				Start:       yyDollar[1].pos,
@@ -2020,37 +2022,37 @@ yydefault:
 		}
 	case 139:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:1002
+//line build/parse.y:1003
 		{
 			yyVAL.expr = &Ident{NamePos: yyDollar[1].pos, Name: yyDollar[1].tok}
 		}
 	case 140:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:1008
+//line build/parse.y:1009
 		{
 			yyVAL.expr = &LiteralExpr{Start: yyDollar[1].pos, Token: yyDollar[1].tok + "." + yyDollar[3].tok}
 		}
 	case 141:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:1012
+//line build/parse.y:1013
 		{
 			yyVAL.expr = &LiteralExpr{Start: yyDollar[1].pos, Token: yyDollar[1].tok + "."}
 		}
 	case 142:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:1016
+//line build/parse.y:1017
 		{
 			yyVAL.expr = &LiteralExpr{Start: yyDollar[1].pos, Token: "." + yyDollar[2].tok}
 		}
 	case 143:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:1020
+//line build/parse.y:1021
 		{
 			yyVAL.expr = &LiteralExpr{Start: yyDollar[1].pos, Token: yyDollar[1].tok}
 		}
 	case 144:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:1026
+//line build/parse.y:1027
 		{
 			yyVAL.expr = &ForClause{
 				For:  yyDollar[1].pos,
@@ -2061,13 +2063,13 @@ yydefault:
 		}
 	case 145:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:1037
+//line build/parse.y:1038
 		{
 			yyVAL.exprs = []Expr{yyDollar[1].expr}
 		}
 	case 146:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:1041
+//line build/parse.y:1042
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, &IfClause{
 				If:   yyDollar[2].pos,
@@ -2076,13 +2078,13 @@ yydefault:
 		}
 	case 147:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:1050
+//line build/parse.y:1051
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 		}
 	case 148:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:1054
+//line build/parse.y:1055
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[2].exprs...)
 		}
diff --git a/build/print.go b/build/print.go
index 23eef55..fa31c7b 100644
--- a/build/print.go
+++ b/build/print.go
@@ -520,6 +520,7 @@ const (
 	precIfElse
 	precOr
 	precAnd
+	precNot
 	precCmp
 	precBitwiseOr
 	precBitwiseXor
@@ -722,16 +723,22 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		p.printf("]")
 
 	case *UnaryExpr:
-		addParen(precUnary)
+		// Use the next precedence level (precSuffix), so that nested unary expressions are parenthesized,
+		// for example: `not (-(+(~foo)))` instead of `not -+~foo`
+		operandPrec := precSuffix
 		if v.Op == "not" {
+			// The logical operator binds weaker than comparisons and arithmetic.
+			addParen(precNot)
 			p.printf("not ") // Requires a space after it.
+			if _, ok := v.X.(*UnaryExpr); !ok {
+				operandPrec = precCmp
+			}
 		} else {
+			addParen(precUnary)
 			p.printf("%s", v.Op)
 		}
-		// Use the next precedence level (precSuffix), so that nested unary expressions are parenthesized,
-		// for example: `not (-(+(~foo)))` instead of `not -+~foo`
 		if v.X != nil {
-			p.expr(v.X, precSuffix)
+			p.expr(v.X, operandPrec)
 		}
 
 	case *LambdaExpr:
-- 
2.43.0


From 94343e4057bfadba264d671c02100ae46217cda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 10/94] fix: don't start function bodies with blank lines of
 the parameter list

---
 build/lex.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/build/lex.go b/build/lex.go
index 3c6156d..f41de77 100644
--- a/build/lex.go
+++ b/build/lex.go
@@ -923,6 +923,23 @@ func (in *input) assignLineComments() {
 	}
 	closeBrackets(-1)
 
+	// Comments at the end of a parameter list become comments of the first statement of the function,
+	// where blank lines have no meaning.
+	for _, x := range in.pre {
+		def, ok := x.(*DefStmt)
+		if !ok || len(def.Body) == 0 {
+			continue
+		}
+		com := def.Body[0].Comment()
+		var before []Comment
+		for _, c := range com.Before {
+			if c.Token != "" {
+				before = append(before, c)
+			}
+		}
+		com.Before = before
+	}
+
 	// Remaining line comments go at end of file.
 	in.file.After = append(in.file.After, line...)
 }
-- 
2.43.0


From cfb9101288bc52c5ed0ba3d77a35def77bc90cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 11/94] fix: separate the trailing comments of a file from its
 last statement

---
 build/print.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/build/print.go b/build/print.go
index fa31c7b..8c03272 100644
--- a/build/print.go
+++ b/build/print.go
@@ -193,8 +193,12 @@ func (p *printer) file(f *File) {
 
 	p.statements(f.Stmt)
 
-	for _, com := range f.After {
+	for i, com := range f.After {
 		p.newlineIfNeeded()
+		if i == 0 && len(f.Stmt) > 0 {
+			// Like any other standalone comment block.
+			p.newline()
+		}
 		p.printf("%s", strings.TrimSpace(com.Token))
 		p.newline()
 	}
-- 
2.43.0


From 7c1b140d8ab02c96ae6b8aadc901114199c52b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:14 +0000
Subject: [PATCH 12/94] fix: remove redundant parens of a commented operand in
 the first formatting already

---
 build/rewrite.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index bf9b766..1ce44ec 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1444,9 +1444,32 @@ func removeParens(f *File, _ *Rewriter) {
 		if !ok || pa.ForceMultiLine {
 			return expr
 		}
-		if len(pa.Comment().Before) > 0 || len(pa.Comment().After) > 0 || len(pa.Comment().Suffix) > 0 {
+		if len(pa.Comment().Before) > 0 || len(pa.Comment().After) > 0 {
 			return expr
 		}
+		if len(pa.Comment().Suffix) > 0 {
+			// The suffix comments of an operand are going to be printed after the bigger expression and
+			// won't belong to the parens anymore, move them in advance.
+			if len(stack) == 0 {
+				return expr
+			}
+			switch parent := stack[len(stack)-1].(type) {
+			case *CallExpr:
+				if parent.X != expr {
+					return expr
+				}
+			case *IndexExpr, *SliceExpr, *ConditionalExpr:
+			default:
+				return expr
+			}
+			switch pa.X.(type) {
+			case *Comprehension, *DictExpr, *Ident, *ListExpr, *LiteralExpr, *SetExpr, *StringExpr:
+				pa.X.Comment().Suffix = append(pa.X.Comment().Suffix, pa.Comment().Suffix...)
+				return pa.X
+			default:
+				return expr
+			}
+		}
 
 		switch x := pa.X.(type) {
 		case *Comprehension, *DictExpr, *Ident, *ListExpr, *LiteralExpr, *ParenExpr, *SetExpr, *StringExpr:
-- 
2.43.0


From 5d6d8651b2dcc4939bfdfa0e17a3158f50f21252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 13/94] fix: separate comments that follow one-line blocks

---
 build/print.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/build/print.go b/build/print.go
index 8c03272..b76ff96 100644
--- a/build/print.go
+++ b/build/print.go
@@ -237,8 +237,15 @@ func (p *printer) statements(rawStmts []Expr) {
 			p.softNewline()
 		}
 
-		for _, com := range stmt.Comment().After {
+		for i, com := range stmt.Comment().After {
 			p.newlineIfNeeded()
+			if i == 0 {
+				switch stmt.(type) {
+				case *DefStmt, *ForStmt, *IfStmt:
+					// A comment after a block is not attached to it.
+					p.newline()
+				}
+			}
 			p.printf("%s", strings.TrimSpace(com.Token))
 			p.softNewline()
 		}
-- 
2.43.0


From 2ceecadbc21085a995fda8098cd0277c98829c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 14/94] fix: don't lose comments when load statements or load
 arguments are merged

---
 build/print.go   |  7 ++++---
 build/rewrite.go | 22 +++++++++++++++++++++-
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/build/print.go b/build/print.go
index b76ff96..5f4ca4b 100644
--- a/build/print.go
+++ b/build/print.go
@@ -837,11 +837,12 @@ func (p *printer) expr(v Expr, outerPrec int) {
 			to := v.To[i]
 			var arg Expr
 			if from.Name == to.Name {
-				// Suffix comments are attached to the `to` token,
-				// Before comments are attached to the `from` token,
+				// Suffix comments are usually attached to the `from` token,
+				// Before comments are usually attached to the `to` token,
 				// they need to be combined.
 				arg = from.asString()
-				arg.Comment().Before = to.Comment().Before
+				arg.Comment().Before = append(append([]Comment{}, to.Before...), from.Before...)
+				arg.Comment().Suffix = append(append([]Comment{}, to.Suffix...), from.Suffix...)
 			} else {
 				arg = &AssignExpr{
 					LHS: to,
diff --git a/build/rewrite.go b/build/rewrite.go
index 1ce44ec..8423eb3 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1051,6 +1051,17 @@ func compressSameOriginLoads(f *File, _ *Rewriter) {
 		// Move loaded symbols to the existing load statement
 		previousLoad.From = append(previousLoad.From, load.From...)
 		previousLoad.To = append(previousLoad.To, load.To...)
+		// Move the comments that don't belong to the loaded symbols
+		for _, comments := range [][]Comment{
+			load.Before, load.Suffix, load.After,
+			load.Module.Before, load.Module.Suffix, load.Rparen.Before, load.Rparen.Suffix,
+		} {
+			for _, comment := range comments {
+				if comment.Token != "" {
+					previousLoad.Before = append(previousLoad.Before, comment)
+				}
+			}
+		}
 		// Remove the current statement
 		f.Stmt[stmtIndex] = nil
 	}
@@ -1272,7 +1283,9 @@ func (args *loadArgs) deduplicate() {
 	var from, to []*Ident
 	for i := range args.To {
 		if len(to) > 0 && to[len(to)-1].Name == args.To[i].Name {
-			// Overwrite
+			// Overwrite, preserving the comments
+			args.From[i].prependComments(from[len(from)-1])
+			args.To[i].prependComments(to[len(to)-1])
 			from[len(from)-1] = args.From[i]
 			to[len(to)-1] = args.To[i]
 			args.modified = true
@@ -1286,6 +1299,13 @@ func (args *loadArgs) deduplicate() {
 	args.To = to
 }
 
+// prependComments inserts the comments of another identifier before the comments of x.
+func (x *Ident) prependComments(other *Ident) {
+	x.Before = append(append([]Comment{}, other.Before...), x.Before...)
+	x.Suffix = append(append([]Comment{}, other.Suffix...), x.Suffix...)
+	x.After = append(append([]Comment{}, other.After...), x.After...)
+}
+
 // SortLoadArgs sorts a load statement arguments (lexicographically, but positional first)
 func SortLoadArgs(load *LoadStmt) bool {
 	args := loadArgs{From: load.From, To: load.To}
-- 
2.43.0


From adb053461e2ad06899f6ea6ebb969e95c04d0486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 15/94] fix: keep pending end-of-line comments inside the
 brackets of empty sequences and next to their dot expressions

---
 build/lex.go   | 8 ++++----
 build/print.go | 7 ++++++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/build/lex.go b/build/lex.go
index f41de77..3c84107 100644
--- a/build/lex.go
+++ b/build/lex.go
@@ -880,9 +880,9 @@ func (in *input) assignLineComments() {
 	// Assign line comments to syntax immediately following.
 	line := in.lineComments
 
-	// Index and slice expressions being visited, with line comments that precede their closing
-	// brackets but don't precede any of their children. They can't be moved past the bracket and
-	// become suffix comments of the expression.
+	// Index, slice and dot expressions being visited. Line comments that precede their ends (e.g. closing
+	// brackets) but don't precede any of their children shouldn't be attached to what follows, they
+	// become suffix comments of the expressions.
 	var brackets []Expr
 	closeBrackets := func(start int) {
 		for n := len(brackets); n > 0; n-- {
@@ -917,7 +917,7 @@ func (in *input) assignLineComments() {
 			return xcom.Before[i].Start.Byte < xcom.Before[j].Start.Byte
 		})
 		switch x.(type) {
-		case *IndexExpr, *SliceExpr:
+		case *DotExpr, *IndexExpr, *SliceExpr:
 			brackets = append(brackets, x)
 		}
 	}
diff --git a/build/print.go b/build/print.go
index 5f4ca4b..a62c28d 100644
--- a/build/print.go
+++ b/build/print.go
@@ -1118,7 +1118,8 @@ func (p *printer) seq(brack string, start *Position, list *[]Expr, end *End, mod
 		// Do this by printing a newline ourselves and positioning
 		// so that the end-of-line comment, with the two spaces added,
 		// will line up with the current margin.
-		if i == 0 && len(p.comment) > 0 {
+		// There's no bracket to follow if it's an unparenthesized tuple.
+		if i == 0 && len(p.comment) > 0 && mode != modeSeq {
 			p.printf("\n%*s", p.margin-2, "")
 		}
 
@@ -1130,6 +1131,10 @@ func (p *printer) seq(brack string, start *Position, list *[]Expr, end *End, mod
 		}
 	}
 	if mode != modeDef {
+		if len(*args) == 0 && len(p.comment) > 0 {
+			// Same for an empty sequence: print them on their own lines after the opening bracket.
+			p.printf("\n%*s", p.margin-2, "")
+		}
 		// If there are several pending end-of-line comments, all of them but the first one get lines
 		// of their own, which should be aligned with the elements, not with the closing bracket.
 		p.flushComments()
-- 
2.43.0


From 859c04e4d1251f7649ef884f149cf0cd2e6c0f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 16/94] fix: align trailing comments of comprehensions, unwrap
 commented calls

---
 build/print.go   | 1 +
 build/rewrite.go | 9 ++++-----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/build/print.go b/build/print.go
index a62c28d..b7a4d08 100644
--- a/build/print.go
+++ b/build/print.go
@@ -1219,6 +1219,7 @@ func (p *printer) listFor(v *Comprehension) {
 	}
 
 	if multiLine {
+		p.flushComments()
 		for _, com := range v.End.Before {
 			p.newline()
 			p.printf("%s", strings.TrimSpace(com.Token))
diff --git a/build/rewrite.go b/build/rewrite.go
index 8423eb3..5c5fd93 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1482,13 +1482,12 @@ func removeParens(f *File, _ *Rewriter) {
 			default:
 				return expr
 			}
-			switch pa.X.(type) {
-			case *Comprehension, *DictExpr, *Ident, *ListExpr, *LiteralExpr, *SetExpr, *StringExpr:
-				pa.X.Comment().Suffix = append(pa.X.Comment().Suffix, pa.Comment().Suffix...)
-				return pa.X
-			default:
+			unwrapped := simplify(&ParenExpr{Start: pa.Start, X: pa.X, End: pa.End}, stack)
+			if _, ok := unwrapped.(*ParenExpr); ok {
 				return expr
 			}
+			unwrapped.Comment().Suffix = append(unwrapped.Comment().Suffix, pa.Comment().Suffix...)
+			return unwrapped
 		}
 
 		switch x := pa.X.(type) {
-- 
2.43.0


From 4f2850c1df8afdcb2984f3d4cddbc1e9442be76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:56 +0000
Subject: [PATCH 17/94] fix: treat calls with a commented argument as multiline
 in concatenations

---
 build/rewrite.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index 5c5fd93..5b7b52a 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -838,7 +838,8 @@ func fixMultilinePlus(f *File, _ *Rewriter) {
 				return true
 			}
 			if len(x.List) == 1 {
-				return isMultiLine(x.List[0])
+				// An argument with line comments is always printed on its own line.
+				return len(x.List[0].Comment().Before) > 0 || isMultiLine(x.List[0])
 			}
 		}
 		return false
-- 
2.43.0


From b9ff6534f43eea63647a40cfa6e7cf4447ece73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 18/94] fix: attach the comment after the header of a function
 without parameters to the function

---
 build/lex.go   | 15 +++++++++++++++
 build/print.go |  3 +++
 2 files changed, 18 insertions(+)

diff --git a/build/lex.go b/build/lex.go
index 3c84107..3ba7344 100644
--- a/build/lex.go
+++ b/build/lex.go
@@ -811,6 +811,9 @@ func (in *input) order(v Expr) {
 		for _, x := range v.Params {
 			in.order(x)
 		}
+		if len(v.Params) == 0 {
+			in.post = append(in.post, &defHeader{v})
+		}
 		for _, x := range v.Body {
 			in.order(x)
 		}
@@ -845,6 +848,18 @@ func (in *input) assignComments() {
 	in.assignLineComments()
 }
 
+// defHeader represents the header of a function definition without parameters in the postorder list:
+// the comment on its line is a suffix comment of the definition.
+type defHeader struct {
+	*DefStmt
+}
+
+// Span returns the start position of the function and the position of its colon.
+func (h *defHeader) Span() (start, end Position) {
+	start, _ = h.DefStmt.Span()
+	return start, h.ColonPos
+}
+
 func (in *input) assignSuffixComments() {
 	// Assign suffix comments to syntax immediately before.
 	suffix := in.suffixComments
diff --git a/build/print.go b/build/print.go
index b7a4d08..b24454e 100644
--- a/build/print.go
+++ b/build/print.go
@@ -901,7 +901,10 @@ func (p *printer) expr(v Expr, outerPrec int) {
 			p.expr(v.Type, precLow)
 		}
 		p.printf(":")
+		// Suffix comments of a function belong to its first line.
+		p.comment = append(p.comment, v.Comment().Suffix...)
 		p.nestedStatements(v.Body)
+		return
 
 	case *ForStmt:
 		p.printf("for ")
-- 
2.43.0


From 3a683cc25f9ff2c6ca05df9150d03e636867b08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:36 +0000
Subject: [PATCH 19/94] fix: attach the comment after the name of a typed
 parameter to that parameter

---
 build/lex.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/build/lex.go b/build/lex.go
index 3ba7344..cb664a8 100644
--- a/build/lex.go
+++ b/build/lex.go
@@ -732,6 +732,7 @@ func (in *input) order(v Expr) {
 	case *Ident:
 		// nothing
 	case *TypedIdent:
+		in.order(v.Ident)
 		in.order(v.Type)
 	case *BranchStmt:
 		// nothing
-- 
2.43.0


From 47d3c60537e8b72add106d7d94210c7101d6d45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 20/94] fix: keep the exponent of floats with a zero exponent,
 don't turn floats with a leading zero into octals

---
 build/rewrite.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index 5b7b52a..b35f511 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1420,6 +1420,10 @@ func editOctals(f *File, _ *Rewriter) {
 		if !ok {
 			return
 		}
+		if strings.ContainsAny(l.Token, ".eE") {
+			// A float with a leading zero.
+			return
+		}
 		if len(l.Token) > 1 && l.Token[0] == '0' && l.Token[1] >= '0' && l.Token[1] <= '9' {
 			l.Token = "0o" + l.Token[1:]
 		}
@@ -1451,7 +1455,11 @@ func editFloats(f *File, _ *Rewriter) {
 			// Invalid float, skip rewriting.
 			return
 		}
-		l.Token = parts[0] + "e" + strings.TrimLeft(parts[1], "0+")
+		exponent := strings.TrimLeft(parts[1], "0+")
+		if exponent == "" {
+			exponent = "0"
+		}
+		l.Token = parts[0] + "e" + exponent
 	})
 }
 
-- 
2.43.0


From a482b102c2d18dfe5e8c3a73cdd731f8811a67f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 21/94] fix: sort load arguments with a stable sort, so that
 the last one of several duplicates wins

---
 build/rewrite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index b35f511..e64be72 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1310,7 +1310,7 @@ func (x *Ident) prependComments(other *Ident) {
 // SortLoadArgs sorts a load statement arguments (lexicographically, but positional first)
 func SortLoadArgs(load *LoadStmt) bool {
 	args := loadArgs{From: load.From, To: load.To}
-	sort.Sort(&args)
+	sort.Stable(&args)
 	args.deduplicate()
 	load.From = args.From
 	load.To = args.To
-- 
2.43.0


From b3143f7ff045f6d441d84672040abc35684be074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 22/94] fix: reorder call arguments by their kind before
 sorting the named ones

---
 build/rewrite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index e64be72..f8399cb 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -125,6 +125,7 @@ var rewrites = []struct {
 	scope FileType
 }{
 	{"removeParens", removeParens, scopeBuild},
+	{"reorderarguments", reorderArguments, scopeBoth},
 	{"callsort", sortCallArgs, scopeBuild},
 	{"label", fixLabels, scopeBuild},
 	{"listsort", sortStringLists, scopeBoth},
@@ -135,7 +136,6 @@ var rewrites = []struct {
 	{"loadsort", sortAllLoadArgs, scopeBoth},
 	{"useRepoPositionalsSort", sortUseRepoPositionals, TypeModule},
 	{"formatdocstrings", formatDocstrings, scopeBoth},
-	{"reorderarguments", reorderArguments, scopeBoth},
 	{"editoctal", editOctals, scopeBoth},
 	{"editfloat", editFloats, scopeBoth},
 	{"collapseEmpty", collapseEmpty, scopeBoth},
-- 
2.43.0


From 1c13b926228b884399cf923a2b46e91968aaf1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 23/94] fix: don't write behind the end of the caller's data
 when parsing

---
 build/lex.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/build/lex.go b/build/lex.go
index cb664a8..b3a1107 100644
--- a/build/lex.go
+++ b/build/lex.go
@@ -213,7 +213,8 @@ func newInput(filename string, data []byte) *input {
 	// The syntax requires that each simple statement ends with '\n', however it's optional at EOF.
 	// If `data` doesn't end with '\n' we add it here to keep parser simple.
 	// It shouldn't affect neither the parsed tree nor its formatting.
-	data = append(data, '\n')
+	// Limit the capacity so that it's never written to the caller's array.
+	data = append(data[:len(data):len(data)], '\n')
 
 	return &input{
 		filename:  filename,
-- 
2.43.0


From d66eb86bdcbb2c1521d88d55407b38b5f7b63038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:45 +0000
Subject: [PATCH 24/94] fix: don't panic on escaped characters outside of
 Latin-1 in single-quoted strings

---
 build/quote.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/quote.go b/build/quote.go
index 03bcdb6..65e3ae8 100644
--- a/build/quote.go
+++ b/build/quote.go
@@ -251,7 +251,7 @@ func IsCorrectEscaping(value string) bool {
 			continue
 		}
 
-		if ok := escapable[ch]; !ok {
+		if int(ch) >= len(escapable) || !escapable[ch] {
 			return false
 		}
 		escaped = false
-- 
2.43.0


From 83dc87b7ee4496ecb4f6afa29c57918031761359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 25/94] fix: conditional expressions group right-to-left and
 get parentheses where their precedence requires them

---
 build/parse.y    |  2 +-
 build/parse.y.go |  2 +-
 build/print.go   | 12 +++++++-----
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/build/parse.y b/build/parse.y
index cf14ac8..a9a83dd 100644
--- a/build/parse.y
+++ b/build/parse.y
@@ -870,7 +870,7 @@ test:
 			$$ = binary($1, $2, $<tok>2, $3)
 		}
 	}
-|	test _IF test _ELSE test
+|	test _IF test _ELSE test %prec ShiftInstead
 	{
 		$$ = &ConditionalExpr{
 			Then: $1,
diff --git a/build/parse.y.go b/build/parse.y.go
index eb98970..b456d35 100644
--- a/build/parse.y.go
+++ b/build/parse.y.go
@@ -545,7 +545,7 @@ var yyPact = [...]int16{
 	21, -1000, -1000, -1000, 855, -1000, 590, 150, 971, 971,
 	-1000, -1000, 971, -1000, -1000, 590, 200, -1000, 4, 971,
 	43, 590, -1000, -1000, 590, -1000, 461, -1000, -37, -1000,
-	-1000, 365, -1000, 684, -1000, -1000, 75, 971, 179, 178,
+	-1000, 365, -1000, 590, -1000, -1000, 75, 971, 179, 178,
 	-1000, 971, 590, 590, 133, 590, 58, 684, 971, 260,
 	-1000, -1000, -1000, 418, 971, 971, 590, -1000, 971, 197,
 	-1000, -1000, 143, 684, -1000, 971, 590, 590, 92, 210,
diff --git a/build/print.go b/build/print.go
index b24454e..01dc11b 100644
--- a/build/print.go
+++ b/build/print.go
@@ -878,10 +878,11 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		p.listFor(v)
 
 	case *ConditionalExpr:
-		addParen(precSuffix)
-		p.expr(v.Then, precIfElse)
+		// The condition groups right-to-left: a if b else (c if d else e).
+		addParen(precIfElse)
+		p.expr(v.Then, precIfElse+1)
 		p.printf(" if ")
-		p.expr(v.Test, precIfElse)
+		p.expr(v.Test, precIfElse+1)
 		p.printf(" else ")
 		p.expr(v.Else, precIfElse)
 
@@ -966,10 +967,11 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		p.printf("for ")
 		p.expr(v.Vars, precLow)
 		p.printf(" in ")
-		p.expr(v.X, precLow)
+		// Clauses of comprehensions can't contain conditional expressions and lambdas without parentheses.
+		p.expr(v.X, precIfElse+1)
 	case *IfClause:
 		p.printf("if ")
-		p.expr(v.Cond, precLow)
+		p.expr(v.Cond, precIfElse+1)
 	}
 
 	// Add closing parenthesis if needed.
-- 
2.43.0


From 6c6fb750fd63439216bb0f8ab7ec1f400a49408f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:47 +0000
Subject: [PATCH 26/94] fix: accept a line continuation before a CRLF line
 break

---
 build/lex.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/build/lex.go b/build/lex.go
index b3a1107..6e6cfbc 100644
--- a/build/lex.go
+++ b/build/lex.go
@@ -424,10 +424,10 @@ func (in *input) Lex(val *yySymType) int {
 			continue
 		}
 
-		if c == '\\' && len(in.remaining) >= 2 && in.remaining[1] == '\n' {
+		if c == '\\' && (bytes.HasPrefix(in.remaining, []byte("\\\n")) || bytes.HasPrefix(in.remaining, []byte("\\\r\n"))) {
 			// We can ignore a trailing \ at end of line together with the \n.
-			in.readRune()
-			in.readRune()
+			for in.readRune() != '\n' {
+			}
 			continue
 		}
 
-- 
2.43.0


From 978c16e41ea8a2b3231e3b881d9bd516c5a2e7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:47 +0000
Subject: [PATCH 27/94] fix: accept a conditional expression behind the comma
 of an unparenthesized tuple

---
 build/parse.y    | 2 +-
 build/parse.y.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/build/parse.y b/build/parse.y
index a9a83dd..73ede86 100644
--- a/build/parse.y
+++ b/build/parse.y
@@ -804,7 +804,7 @@ parameter_type:
 
 expr:
 	test %prec ShiftInstead
-|	expr ',' test
+|	expr ',' test %prec ShiftInstead
 	{
 		tuple, ok := $1.(*TupleExpr)
 		if !ok || !tuple.NoBrackets {
diff --git a/build/parse.y.go b/build/parse.y.go
index b456d35..bb6f8ca 100644
--- a/build/parse.y.go
+++ b/build/parse.y.go
@@ -534,7 +534,7 @@ var yyPact = [...]int16{
 	971, 191, 206, -1000, 152, 21, 21, 813, -1000, -1000,
 	-1000, 200, 136, 547, 200, 73, 110, 205, 461, 200,
 	214, 590, 8, -1000, -35, 632, -1000, -1000, -1000, 971,
-	72, 204, 204, 684, 590, 174, 365, -1000, -1000, -1000,
+	72, 204, 204, 590, 590, 174, 365, -1000, -1000, -1000,
 	-1000, -1000, 90, 90, 1005, 1005, 1005, 1005, 1005, 1005,
 	1005, 971, 770, 813, 889, 131, 347, 35, 35, 727,
 	504, 75, 365, -1000, 213, 200, 899, 203, -1000, 124,
-- 
2.43.0


From 511211a9fe56f008d356e627462691c010487cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:17 +0000
Subject: [PATCH 28/94] fix: don't take the plus sign behind a hexadecimal
 number that ends with e for a part of the number

---
 build/lex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/build/lex.go b/build/lex.go
index 6e6cfbc..32c0434 100644
--- a/build/lex.go
+++ b/build/lex.go
@@ -628,7 +628,9 @@ func (in *input) Lex(val *yySymType) int {
 			if c == '+' || c == '-' {
 				t := in.peekToken()
 				// Parse 12.3e-4 and 12.3E+4 as a single token.
-				if !(len(t) > 0 && t[0] >= '0' && t[0] <= '9' && (t[len(t)-1] == 'e' || t[len(t)-1] == 'E')) {
+				// In a hexadecimal number (0xe+4) the letter is a digit.
+				if !(len(t) > 0 && t[0] >= '0' && t[0] <= '9' && (t[len(t)-1] == 'e' || t[len(t)-1] == 'E')) ||
+					bytes.HasPrefix(t, []byte("0x")) || bytes.HasPrefix(t, []byte("0X")) {
 					break
 				}
 			} else {
-- 
2.43.0


From b95ea6527137013aec66c25371e96374edfdd96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:03 +0000
Subject: [PATCH 29/94] fix: remove: don't modify lists that contain none of
 the values

---
 edit/buildozer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 1b9c186..f574506 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -439,10 +439,17 @@ func cmdRemove(opts *Options, env CmdEnvironment) (*build.File, error) {
 	} else { // Remove values in the attribute.
 		fixed := false
 		for _, key := range attrKeysForPattern(env.Rule, env.Args[0]) {
+			removed := false
 			for _, val := range env.Args[1:] {
-				ListAttributeDelete(env.Rule, key, val, env.Pkg)
+				if ListAttributeDelete(env.Rule, key, val, env.Pkg) != nil {
+					removed = true
+				}
 				fixed = true
 			}
+			if !removed {
+				// Lists containing none of the values are not modified.
+				continue
+			}
 			ResolveAttr(env.Rule, key, env.Pkg)
 			// Remove the attribute if's an empty list
 			if listExpr, ok := env.Rule.Attr(key).(*build.ListExpr); ok && len(listExpr.List) == 0 {
-- 
2.43.0


From b84a4f2582fe19bf0ecd5174bad704a989d87b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:51 +0000
Subject: [PATCH 30/94] fix: look for values in all selects of an expression,
 also in those with a no_match_error

---
 edit/edit.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edit/edit.go b/edit/edit.go
index e56ee45..ffb481b 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -423,12 +423,12 @@ func allListsFromSelects(e build.Expr) []*build.ListExpr {
 	var lists []*build.ListExpr
 
 	for _, s := range AllSelects(e) {
-		if len(s.List) != 1 {
-			return nil
+		if len(s.List) == 0 {
+			continue
 		}
 		dict, ok := s.List[0].(*build.DictExpr)
 		if !ok {
-			return nil
+			continue
 		}
 		for _, kv := range dict.List {
 			list, ok := kv.Value.(*build.ListExpr)
-- 
2.43.0


From 1b6a2fda92f10cb95a3e32634f52e5bb1980c748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:56 +0000
Subject: [PATCH 31/94] fix: dict_remove: keep entries whose keys are not
 string literals

---
 edit/edit.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/edit/edit.go b/edit/edit.go
index ffb481b..b0278ee 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -942,12 +942,10 @@ func DictionaryDelete(dict *build.DictExpr, key string) (deleted build.Expr) {
 	deleted = nil
 	var all []*build.KeyValueExpr
 	for _, kv := range dict.List {
-		if k, ok := kv.Key.(*build.StringExpr); ok {
-			if k.Value == key {
-				deleted = kv
-			} else {
-				all = append(all, kv)
-			}
+		if k, ok := kv.Key.(*build.StringExpr); ok && k.Value == key {
+			deleted = kv
+		} else {
+			all = append(all, kv)
 		}
 	}
 	dict.List = all
-- 
2.43.0


From 55e0d79dae343851947dea5f84d803e0f183d7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:25 +0000
Subject: [PATCH 32/94] fix: don't lose the aliases of load commands that are
 applied to several targets

---
 edit/buildozer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index f574506..73226d0 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -283,10 +283,11 @@ func findInsertionIndex(env CmdEnvironment) (bool, int, error) {
 // splitLoadArgs splits arguments of form <[to=]from>
 // into a slice of froms and a slice of tos.
 func splitLoadArgs(args []string) ([]string, []string) {
-	from := args
+	// Don't modify args, they are shared by all targets the command is applied to.
+	from := append([]string{}, args...)
 	to := append([]string{}, args...)
-	for i := range from {
-		if s := strings.SplitN(from[i], "=", 2); len(s) == 2 {
+	for i := range args {
+		if s := strings.SplitN(args[i], "=", 2); len(s) == 2 {
 			to[i] = s[0]
 			from[i] = s[1]
 		}
-- 
2.43.0


From 8b20a07569cbe81942229aa6a7ee351f21a2aac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:25 +0000
Subject: [PATCH 33/94] fix: replace_load: remove all replaced symbols of a
 load statement

---
 edit/edit.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/edit/edit.go b/edit/edit.go
index b0278ee..5c291f6 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -1190,17 +1190,15 @@ func ReplaceLoad(stmts []build.Expr, location string, from, to []string) []build
 			continue
 		}
 
+		var keptFrom, keptTo []*build.Ident
 		for i, to := range load.To {
-			if toSymbols[to.Name] {
-				if i < len(load.From)-1 {
-					load.From = append(load.From[:i], load.From[i+1:]...)
-					load.To = append(load.To[:i], load.To[i+1:]...)
-				} else {
-					load.From = load.From[:i]
-					load.To = load.To[:i]
-				}
+			if !toSymbols[to.Name] {
+				keptFrom = append(keptFrom, load.From[i])
+				keptTo = append(keptTo, to)
 			}
 		}
+		load.From = keptFrom
+		load.To = keptTo
 
 		if len(load.To) > 0 {
 			all = append(all, load)
-- 
2.43.0


From e522b9ef5e62ca51d077ff41290afdcff2e0bec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:25 +0000
Subject: [PATCH 34/94] fix: use_repo_add, use_repo_remove: accept extensions
 of the main repository

---
 edit/buildozer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 73226d0..3c82b9d 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -896,7 +896,7 @@ func cmdFormat(opts *Options, env CmdEnvironment) (*build.File, error) {
 func isExtensionLabel(arg string) bool {
 	// Labels referencing extensions are either absolute or repo-absolute. Repository names are not
 	// allowed to contain "@" or "/".
-	return strings.HasPrefix(arg, "@") || strings.HasSuffix(arg, "//")
+	return strings.HasPrefix(arg, "@") || strings.HasPrefix(arg, "//")
 }
 
 func cmdFix(opts *Options, env CmdEnvironment) (*build.File, error) {
-- 
2.43.0


From c27c7c6601bab7290453c9e431694ae024bc94a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:02 +0000
Subject: [PATCH 35/94] fix: don't edit the BUILD file of a package twice if it
 has several BUILD-like files

---
 edit/buildozer.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 3c82b9d..d355a63 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -1313,15 +1313,20 @@ func findBuildFiles(rootDir string) []string {
 			continue
 		}
 
+		files := make(map[string]bool)
 		for _, dirFile := range dirFiles {
 			if dirFile.IsDir() {
 				searchDirs = append(searchDirs, filepath.Join(dir, dirFile.Name()))
 			} else {
-				for _, buildFileName := range BuildFileNames {
-					if dirFile.Name() == buildFileName {
-						buildFiles = append(buildFiles, filepath.Join(dir, dirFile.Name()))
-					}
-				}
+				files[dirFile.Name()] = true
+			}
+		}
+
+		// A directory is one package, its BUILD file is the first existing one of BuildFileNames.
+		for _, buildFileName := range BuildFileNames {
+			if files[buildFileName] {
+				buildFiles = append(buildFiles, filepath.Join(dir, buildFileName))
+				break
 			}
 		}
 	}
-- 
2.43.0


From 2852ea408f57fb5c5e4ec25209098c618ed5af68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:31 +0000
Subject: [PATCH 36/94] fix: print rule: include the comment behind the closing
 parenthesis

---
 edit/buildozer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index d355a63..8264327 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -356,8 +356,11 @@ func cmdPrint(opts *Options, env CmdEnvironment) (*build.File, error) {
 				return nil, nil
 			}
 		} else if str == "rule" {
+			// Format the rule as a statement, to also get the comment behind its closing parenthesis.
+			stmt := &build.File{Type: build.TypeBuild, Stmt: []build.Expr{env.Rule.Call}}
+			text := strings.TrimSuffix(string(build.FormatWithoutRewriting(stmt)), "\n")
 			fields[i] = &apipb.Output_Record_Field{
-				Value: &apipb.Output_Record_Field_Text{Text: build.FormatString(env.Rule.Call)},
+				Value: &apipb.Output_Record_Field_Text{Text: text},
 			}
 		} else if str == "startline" {
 			fields[i] = &apipb.Output_Record_Field{
-- 
2.43.0


From f1a21fb6ad13f6b54bd608dd4c1fe12968613935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:29 +0000
Subject: [PATCH 37/94] fix: comment: replace the comment of an attribute like
 those of rules and values

---
 edit/buildozer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 8264327..7bb0ae4 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -115,9 +115,12 @@ func cmdComment(opts *Options, env CmdEnvironment) (*build.File, error) {
 		env.Rule.Call.Comments.Before = comment
 	case 2: // Attach to an attribute
 		if attr := env.Rule.AttrDefn(env.Args[0]); attr != nil {
+			// The parser attaches comments to the assignment, replace those as well.
 			if fullLine {
+				attr.Comments.Before = nil
 				attr.LHS.Comment().Before = comment
 			} else {
+				attr.Comments.Suffix = nil
 				attr.RHS.Comment().Suffix = comment
 			}
 		}
-- 
2.43.0


From 2e314f49424744a4ac16c7316e4d5f13d6ed811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 38/94] fix: don't edit a file twice at the same time if it is
 addressed by absolute and relative targets

---
 edit/buildozer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 7bb0ae4..95c40ca 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -1288,7 +1288,8 @@ var EditFile = func(fi os.FileInfo, name string) error {
 // existing BUILD file paths which match the package.
 func targetExpressionToBuildFiles(rootDir string, target string) []string {
 	file, _, _, _ := InterpretLabelForWorkspaceLocation(rootDir, target)
-	if rootDir == "" {
+	// Files are grouped by their paths, absolute and relative targets of the same file must not get different ones.
+	if file != "" {
 		var err error
 		if file, err = filepath.Abs(file); err != nil {
 			fmt.Printf("Cannot make path absolute: %s\n", err.Error())
-- 
2.43.0


From b5d545b0a18a19bb3bea380371ea8c21a4600784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 39/94] fix: dict_add, dict_set: don't apply a part of a
 command with malformed arguments

---
 edit/buildozer.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 95c40ca..63545d6 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -658,6 +658,13 @@ func cmdDictAdd(opts *Options, env CmdEnvironment) (*build.File, error) {
 	attr := env.Args[0]
 	args := env.Args[1:]
 
+	// Don't modify the dictionary if any of the arguments is malformed.
+	for _, x := range args {
+		if !strings.Contains(x, ":") {
+			return nil, fmt.Errorf("no colon in dict_add argument %q found", x)
+		}
+	}
+
 	dict := &build.DictExpr{}
 	currDict, ok := env.Rule.Attr(attr).(*build.DictExpr)
 	if ok {
@@ -666,9 +673,6 @@ func cmdDictAdd(opts *Options, env CmdEnvironment) (*build.File, error) {
 
 	for _, x := range args {
 		kv := strings.SplitN(x, ":", 2)
-		if len(kv) != 2 {
-			return nil, fmt.Errorf("no colon in dict_add argument %q found", x)
-		}
 		expr := getStringExpr(kv[1], env.Pkg)
 
 		prev := DictionaryGet(dict, kv[0])
@@ -718,6 +722,13 @@ func cmdDictSet(opts *Options, env CmdEnvironment) (*build.File, error) {
 	attr := env.Args[0]
 	args := env.Args[1:]
 
+	// Don't modify the dictionary if any of the arguments is malformed.
+	for _, x := range args {
+		if !strings.Contains(x, ":") {
+			return nil, fmt.Errorf("no colon in dict_set argument %q found", x)
+		}
+	}
+
 	dict := &build.DictExpr{}
 	currDict, ok := env.Rule.Attr(attr).(*build.DictExpr)
 	if ok {
@@ -726,9 +737,6 @@ func cmdDictSet(opts *Options, env CmdEnvironment) (*build.File, error) {
 
 	for _, x := range args {
 		kv := strings.SplitN(x, ":", 2)
-		if len(kv) != 2 {
-			return nil, fmt.Errorf("no colon in dict_set argument %q found", x)
-		}
 		expr := getStringExpr(kv[1], env.Pkg)
 		// Set overwrites previous values.
 		DictionarySet(dict, kv[0], expr)
-- 
2.43.0


From 3cf7fc51de915908515199b5525e4132b51c4508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 40/94] fix: command files: apply all commands of a line to the
 labels of the command line, not only the first one

---
 edit/buildozer.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 63545d6..04445a8 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -1416,15 +1416,22 @@ func appendCommandsFromReader(opts *Options, reader io.Reader, commandsByFile ma
 		for i, arg := range args {
 			args[i] = replaceSavedPipes(arg)
 		}
-		if len(args) > 1 && args[1] == "*" {
-			cmd := append([]string{args[0]}, labels...)
-			if err := appendCommands(opts, commandsByFile, cmd); err != nil {
-				return err
-			}
-		} else {
-			if err := appendCommands(opts, commandsByFile, args); err != nil {
-				return err
+		// If the line has the single label "*", it's applied to the labels from the command line.
+		_, targets, err := parseCommands(opts, args)
+		if err != nil {
+			return err
+		}
+		if len(targets) == 1 && targets[0] == "*" {
+			var cmd []string
+			for _, arg := range args {
+				if arg != "*" {
+					cmd = append(cmd, arg)
+				}
 			}
+			args = append(cmd, labels...)
+		}
+		if err := appendCommands(opts, commandsByFile, args); err != nil {
+			return err
 		}
 	}
 	return nil
-- 
2.43.0


From 2a0bde99a260924837920131e474ce90f6f3fbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 41/94] fix: don't apply commands to a temporary package
 declaration that was created for another target

---
 edit/buildozer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 04445a8..a5573e5 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -1255,6 +1255,9 @@ func rewrite(opts *Options, commandsForFile commandsForFile) *rewriteResult {
 				}
 			}
 		}
+		// If a package declaration has been created for this target but isn't used, it shouldn't be visible to the
+		// commands for the following targets.
+		f.Stmt = RemoveEmptyPackage(f).Stmt
 	}
 	if !changed {
 		return &rewriteResult{file: name, errs: errs, records: records}
-- 
2.43.0


From 934300d1ae06537d20a1562053a51d621462c5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 42/94] fix: labels: don't confuse canonical with apparent
 repository names

---
 labels/labels.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/labels/labels.go b/labels/labels.go
index 7564621..bf97120 100644
--- a/labels/labels.go
+++ b/labels/labels.go
@@ -28,6 +28,7 @@ type Label struct {
 	Repository string // Repository of the target, can be empty if the target belongs to the current repository
 	Package    string // Package of a target, can be empty for top packages
 	Target     string // Name of the target, should be always non-empty
+	Canonical  bool   // Whether Repository is a canonical name ("@@repo"), "@repo" may be another repository
 }
 
 // Format returns a string representation of a label. It's always absolute but
@@ -37,6 +38,9 @@ func (l Label) Format() string {
 	b := new(bytes.Buffer)
 	if l.Repository != "" {
 		b.WriteString("@")
+		if l.Canonical {
+			b.WriteString("@")
+		}
 		b.WriteString(l.Repository)
 	}
 	if l.Repository == l.Target && l.Package == "" {
@@ -66,13 +70,16 @@ func (l Label) FormatRelative(pkg string) string {
 func Parse(target string) Label {
 	label := Label{}
 	if strings.HasPrefix(target, "@") {
+		canonical := strings.HasPrefix(target, "@@")
 		target = strings.TrimLeft(target, "@")
 		parts := strings.SplitN(target, "/", 2)
+		label.Repository = parts[0]
+		label.Canonical = canonical && label.Repository != ""
 		if len(parts) == 1 {
 			// "@foo" -> @foo//:foo
-			return Label{target, "", target}
+			label.Target = target
+			return label
 		}
-		label.Repository = parts[0]
 		target = "/" + parts[1]
 	}
 	parts := strings.SplitN(target, ":", 2)
-- 
2.43.0


From 5fceb44f30b529f52e59738bbbac2b63242a4937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 43/94] fix: include the asterisk in the span of a bare *
 parameter

---
 build/syntax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/syntax.go b/build/syntax.go
index 2db5b24..ec7a513 100644
--- a/build/syntax.go
+++ b/build/syntax.go
@@ -516,7 +516,7 @@ type UnaryExpr struct {
 // Span returns the start and end positions of the node
 func (x *UnaryExpr) Span() (start, end Position) {
 	if x.X == nil {
-		return x.OpStart, x.OpStart
+		return x.OpStart, x.OpStart.add(x.Op)
 	}
 	_, end = x.X.Span()
 	return x.OpStart, end
-- 
2.43.0


From 419fb1b3c174b22a242a59df27a4844baaf2e25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:23 +0000
Subject: [PATCH 44/94] fix: order a package path before those of its
 subpackages regardless of the case when sorting loads

---
 build/rewrite.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/build/rewrite.go b/build/rewrite.go
index f8399cb..170e75a 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1091,6 +1091,10 @@ func comparePaths(path1, path2 string) bool {
 		}
 	}
 
+	if len(chunks1) < len(chunks2) {
+		return true
+	}
+
 	// No case-insensitive difference detected. Likely the difference is just in
 	// the case of some symbols, compare case-sensitively for the determinism.
 	return path1 <= path2
-- 
2.43.0


From c10fbae80801d613fa251d3ae922d09410b050f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 45/94] fix: uninitialized: check the arguments of fail() calls
 too

---
 warn/warn_control_flow.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index 19206a2..e6bcb8c 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -804,6 +804,7 @@ func findUninitializedVariables(stmts []build.Expr, previouslyInitialized map[st
 			// Don't traverse nested functions
 		case *build.CallExpr:
 			if _, ok := isFunctionCall(stmt, "fail"); ok {
+				findUninitializedIdents(stmt, callback)
 				return true, locallyInitialized
 			}
 		case *build.ReturnStmt:
-- 
2.43.0


From 567a0c74207325b017a8c0d5262d72f021bc6352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 46/94] fix: uninitialized: augmented assignments read their
 variable

---
 warn/warn_control_flow.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index e6bcb8c..98d0037 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -747,6 +747,10 @@ func findUninitializedVariables(stmts []build.Expr, previouslyInitialized map[st
 				// Don't traverse into nested def statements
 				return &build.StopTraversalError{}
 			case *build.AssignExpr:
+				if expr.Op != "=" {
+					// Augmented assignments read the variable before they assign to it.
+					return
+				}
 				for _, ident := range bzlenv.CollectLValues(expr.LHS) {
 					lValues[ident] = true
 				}
-- 
2.43.0


From e07497e9bcb7ba933dc96521b73d872f7e5003a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 47/94] fix: load: don't take removed loads for the origin of
 duplicates

---
 warn/warn_control_flow.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index 98d0037..0f84414 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -646,6 +646,8 @@ func unusedLoadWarning(f *build.File) []*LinterFinding {
 				load.To = append(load.To[:i], load.To[i+1:]...)
 				load.From = append(load.From[:i], load.From[i+1:]...)
 				i--
+				// It's going to be removed, so it's no duplicate for the next loads of the same name
+				delete(loaded, to.Name)
 
 				loadFindings = append(loadFindings, makeLinterFinding(to,
 					fmt.Sprintf("Loaded symbol %q is unused. Please remove it.\nTo disable the warning, add '@unused' in a comment.", to.Name)))
-- 
2.43.0


From 04431cd4ad4470fc37cac5b789885ed96540bb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 48/94] fix: unused-variable: resolve first iterables, default
 values and types of parameters in the outer scope

---
 warn/warn_control_flow.go | 48 +++++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index 0f84414..92f5062 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -247,6 +247,10 @@ func extractIdentsFromStmt(stmt build.Expr) (assigned, used map[*build.Ident]boo
 	// Local scopes for comprehensions
 	scopes := make(map[build.Expr]map[string]bool)
 
+	// Nodes that are evaluated outside of the local scope of the comprehension or
+	// the lambda expression they belong to
+	outerNodes := make(map[build.Expr]build.Expr)
+
 	// Nodes that are excluded from traversal
 	blockedNodes := make(map[build.Expr]bool)
 
@@ -344,12 +348,16 @@ func extractIdentsFromStmt(stmt build.Expr) (assigned, used map[*build.Ident]boo
 			// the usage of variables with the same name outside the comprehension
 			// scope.
 			scope := make(map[string]bool)
-			for _, clause := range expr.Clauses {
+			for i, clause := range expr.Clauses {
 				forClause, ok := clause.(*build.ForClause)
 				if !ok {
 					// if-clause
 					continue
 				}
+				if i == 0 {
+					// The first iterable doesn't see the iterators.
+					outerNodes[forClause.X] = expr
+				}
 				for _, lValue := range bzlenv.CollectLValues(forClause.Vars) {
 					scope[lValue.Name] = true
 				}
@@ -363,13 +371,26 @@ func extractIdentsFromStmt(stmt build.Expr) (assigned, used map[*build.Ident]boo
 				for _, lValue := range bzlenv.CollectLValues(param) {
 					scope[lValue.Name] = true
 				}
+				if assign, ok := param.(*build.AssignExpr); ok {
+					// Default values don't see the parameters.
+					outerNodes[assign.RHS] = expr
+				}
 			}
 			scopes[expr] = scope
 
 		case *build.Ident:
 			// If the identifier is defined in an intermediate scope, ignore it.
+			isOuter := make(map[build.Expr]bool)
+			if outer, ok := outerNodes[expr]; ok {
+				isOuter[outer] = true
+			}
+			for _, node := range stack {
+				if outer, ok := outerNodes[node]; ok {
+					isOuter[outer] = true
+				}
+			}
 			for _, node := range stack {
-				if scope, ok := scopes[node]; ok {
+				if scope, ok := scopes[node]; ok && !isOuter[node] {
 					if _, ok := scope[expr.Name]; ok {
 						return
 					}
@@ -407,6 +428,9 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 	// Symbols that are used in the current and inner scopes
 	usedSymbols := make(map[string]bool)
 
+	// Symbols from outer scopes that are used in the header of the function
+	usedInHeader := make(map[string]bool)
+
 	// Symbols for which the warning should be suppressed
 	suppressedWarnings := make(map[string]bool)
 
@@ -451,6 +475,19 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 						suppressedWarnings[ident.Name] = true
 					}
 				}
+				// The same is true for their types.
+				typed := param
+				switch param := param.(type) {
+				case *build.AssignExpr:
+					typed = param.LHS
+				case *build.UnaryExpr:
+					typed = param.X
+				}
+				if typed, ok := typed.(*build.TypedIdent); ok {
+					for _, t := range build.GetTypes(typed.Type) {
+						usedInHeader[t] = true
+					}
+				}
 				// The default variables for the parameters are defined in the outer
 				// scope but used here.
 				assign, ok := param.(*build.AssignExpr)
@@ -463,9 +500,12 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 				// a function call with a keyword parameter.
 				_, used := extractIdentsFromStmt(assign.RHS)
 				for ident := range used {
-					usedSymbols[ident.Name] = true
+					usedInHeader[ident.Name] = true
 				}
 			}
+			for _, t := range build.GetTypes(expr.Type) {
+				usedInHeader[t] = true
+			}
 
 		case *build.LoadStmt:
 			// LoadStmt nodes store the loaded symbols as idents, even though in the
@@ -497,7 +537,7 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 	// make the variable with the same name from an outer scope also used.
 	// Collect variables that are used in the current or inner scopes but are not
 	// defined in the current scope.
-	usedSymbolsFromOuterScope := make(map[string]bool)
+	usedSymbolsFromOuterScope := usedInHeader
 	for symbol := range usedSymbols {
 		if _, ok := definedSymbols[symbol]; ok {
 			continue
-- 
2.43.0


From a27e3f8435d1481509a46b79e447e189512d6435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:53 +0000
Subject: [PATCH 49/94] fix: unnamed-macro: the reported callee depended on the
 map iteration order

---
 warn/warn_macro.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/warn/warn_macro.go b/warn/warn_macro.go
index 65b071c..504ea03 100644
--- a/warn/warn_macro.go
+++ b/warn/warn_macro.go
@@ -20,6 +20,7 @@ package warn
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
@@ -257,8 +258,19 @@ func (ma macroAnalyzer) IsMacro(fn function) (report functionReport) {
 
 	// Prioritize function calls from already loaded files. If some of the function calls are from the same file
 	// (or another file that has been loaded already), check them first.
-	var knownFunCalls, newFunCalls []funCall
+	// Go through them in the order of their lines, otherwise the reported reason isn't deterministic.
+	sortedFunCalls := make([]funCall, 0, len(funCalls))
 	for _, fc := range funCalls {
+		sortedFunCalls = append(sortedFunCalls, fc)
+	}
+	sort.Slice(sortedFunCalls, func(i, j int) bool {
+		if sortedFunCalls[i].line != sortedFunCalls[j].line {
+			return sortedFunCalls[i].line < sortedFunCalls[j].line
+		}
+		return sortedFunCalls[i].nameAlias < sortedFunCalls[j].nameAlias
+	})
+	var knownFunCalls, newFunCalls []funCall
+	for _, fc := range sortedFunCalls {
 		if _, ok := ma.files[fc.function.pkg+":"+fc.function.filename]; ok || fc.function.filename == nativeModule {
 			knownFunCalls = append(knownFunCalls, fc)
 		} else {
-- 
2.43.0


From 9f2fe0b5935d0e6488bd375ab3740cb90c69a4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:53 +0000
Subject: [PATCH 50/94] fix: unnamed-macro: a function in a call cycle could be
 considered not a macro

---
 warn/warn_macro.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/warn/warn_macro.go b/warn/warn_macro.go
index 504ea03..57a8dd8 100644
--- a/warn/warn_macro.go
+++ b/warn/warn_macro.go
@@ -209,17 +209,35 @@ func (ma macroAnalyzer) getFileData(pkg, label string) fileData {
 }
 
 // IsMacro is a public function that checks whether the given function is a macro
-func (ma macroAnalyzer) IsMacro(fn function) (report functionReport) {
+func (ma macroAnalyzer) IsMacro(fn function) functionReport {
+	visited := make(map[function]bool)
+	report := ma.isMacro(fn, visited)
+	if !report.isMacro {
+		// None of the functions that can be reached from fn is a macro.
+		for visitedFn := range visited {
+			ma.cache[visitedFn] = report
+		}
+	}
+	return report
+}
+
+// isMacro checks whether a macro or a rule can be reached from the given function without passing through
+// the already visited functions. Keeping track of the visited functions prevents stack overflow crashes if
+// the input data contains recursion. A negative result may be caused by a visited function that hasn't been
+// fully analyzed yet, only positive results are cached here.
+func (ma macroAnalyzer) isMacro(fn function, visited map[function]bool) (report functionReport) {
 	// Check the cache first
 	if cached, ok := ma.cache[fn]; ok {
 		return cached
 	}
-	// Write a negative result to the cache before analyzing. This will prevent stack overflow crashes
-	// if the input data contains recursion.
-	ma.cache[fn] = report
+	if visited[fn] {
+		return
+	}
+	visited[fn] = true
 	defer func() {
-		// Update the cache with the actual result
-		ma.cache[fn] = report
+		if report.isMacro {
+			ma.cache[fn] = report
+		}
 	}()
 
 	// Check for native rules
@@ -238,7 +256,7 @@ func (ma macroAnalyzer) IsMacro(fn function) (report functionReport) {
 
 	// Check whether fn.name is an alias for another function
 	if alias, ok := fileData.aliases[fn.name]; ok {
-		if ma.IsMacro(alias).isMacro {
+		if ma.isMacro(alias, visited).isMacro {
 			report.isMacro = true
 		}
 		return
@@ -279,7 +297,7 @@ func (ma macroAnalyzer) IsMacro(fn function) (report functionReport) {
 	}
 
 	for _, fc := range append(knownFunCalls, newFunCalls...) {
-		if ma.IsMacro(fc.function).isMacro {
+		if ma.isMacro(fc.function, visited).isMacro {
 			report.isMacro = true
 			report.fc = &fc
 			return
-- 
2.43.0


From aa67e94236e8d0768b126307abadc98924658cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 51/94] fix: unnamed-macro: *name doesn't accept a keyword
 argument called name

---
 warn/warn_macro.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/warn/warn_macro.go b/warn/warn_macro.go
index 57a8dd8..373fb4c 100644
--- a/warn/warn_macro.go
+++ b/warn/warn_macro.go
@@ -53,8 +53,8 @@ type funCall struct {
 // either directly or via **kwargs.
 func acceptsNameArgument(def *build.DefStmt) bool {
 	for _, param := range def.Params {
-		if name, op := build.GetParamName(param); name == "name" || op == "**" {
-  		return true
+		if name, op := build.GetParamName(param); (name == "name" && op == "") || op == "**" {
+			return true
 		}
 	}
 	return false
-- 
2.43.0


From 98afddd9baa6bc4a2409139f80e34a1dc73134c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:30 +0000
Subject: [PATCH 52/94] fix: bzlenv: resolve parameters of lambdas, nested
 functions, default values and first iterables in their scopes

---
 bzlenv/bzlenv.go | 59 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 56 insertions(+), 3 deletions(-)

diff --git a/bzlenv/bzlenv.go b/bzlenv/bzlenv.go
index 40394af..260d6d1 100644
--- a/bzlenv/bzlenv.go
+++ b/bzlenv/bzlenv.go
@@ -156,7 +156,7 @@ func CollectLValues(node build.Expr) []*build.Ident {
 	return result
 }
 
-func declareParams(fct *build.DefStmt, env *Environment) {
+func declareParams(fct *build.Function, env *Environment) {
 	for _, node := range fct.Params {
 		name, _ := build.GetParamName(node)
 		env.declare(name, Parameter, node)
@@ -182,24 +182,56 @@ func declareLocalVariables(stmts []build.Expr, env *Environment) {
 				env.declare(id.Name, Local, node)
 			}
 			declareLocalVariables(node.Body, env)
+		case *build.DefStmt:
+			env.declare(node.Name, Function, node)
+		}
+	}
+}
+
+// inOuterBlock calls f in the environment without the current block.
+func (e *Environment) inOuterBlock(f func()) {
+	current := e.currentBlock()
+	e.exitBlock()
+	f()
+	e.Blocks = append(e.Blocks, current)
+}
+
+// isParameter returns whether a node is a parameter of a function definition or of a lambda.
+func isParameter(node, parent build.Expr) bool {
+	var params []build.Expr
+	switch parent := parent.(type) {
+	case *build.DefStmt:
+		params = parent.Params
+	case *build.LambdaExpr:
+		params = parent.Params
+	}
+	for _, param := range params {
+		if param == node {
+			return true
 		}
 	}
+	return false
 }
 
 // WalkOnceWithEnvironment calls fct on every child of node, while maintaining the Environment of all available symbols.
 func WalkOnceWithEnvironment(node build.Expr, env *Environment, fct func(e *build.Expr, env *Environment)) {
+	var parent build.Expr
+	if len(env.Stack) > 0 {
+		parent = env.Stack[len(env.Stack)-1]
+	}
 	env.Stack = append(env.Stack, node)
 	switch node := node.(type) {
 	case *build.File:
 		declareGlobals(node.Stmt, env)
 		build.WalkOnce(node, func(e *build.Expr) { fct(e, env) })
 	case *build.DefStmt:
+		outerFunction := env.Function
 		env.enterBlock()
 		env.Function = node
-		declareParams(node, env)
+		declareParams(&node.Function, env)
 		declareLocalVariables(node.Body, env)
 		build.WalkOnce(node, func(e *build.Expr) { fct(e, env) })
-		env.Function = nil
+		env.Function = outerFunction
 		env.exitBlock()
 	case *build.Comprehension:
 		env.enterBlock()
@@ -213,6 +245,27 @@ func WalkOnceWithEnvironment(node build.Expr, env *Environment, fct func(e *buil
 		}
 		build.WalkOnce(node, func(e *build.Expr) { fct(e, env) })
 		env.exitBlock()
+	case *build.LambdaExpr:
+		env.enterBlock()
+		declareParams(&node.Function, env)
+		build.WalkOnce(node, func(e *build.Expr) { fct(e, env) })
+		env.exitBlock()
+	case *build.ForClause:
+		fct(&node.Vars, env)
+		if comp, ok := parent.(*build.Comprehension); ok && comp.Clauses[0] == build.Expr(node) {
+			// The iterable of the first clause is evaluated outside of the comprehension.
+			env.inOuterBlock(func() { fct(&node.X, env) })
+		} else {
+			fct(&node.X, env)
+		}
+	case *build.AssignExpr:
+		fct(&node.LHS, env)
+		if isParameter(node, parent) {
+			// Default values are evaluated outside of the function.
+			env.inOuterBlock(func() { fct(&node.RHS, env) })
+		} else {
+			fct(&node.RHS, env)
+		}
 	default:
 		build.WalkOnce(node, func(e *build.Expr) { fct(e, env) })
 	}
-- 
2.43.0


From a00f762250b23a65ed82a089e99d031211d8bf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 53/94] fix: package-name, repository-name, native-*: names of
 keyword arguments are not usages of global symbols

---
 warn/warn_bazel_api.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index 61de4e6..6346174 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -97,6 +97,20 @@ func isFunctionCall(expr build.Expr, name string) (*build.CallExpr, bool) {
 	return nil, false
 }
 
+// isArgumentName checks whether an identifier is the name of a keyword argument of a call, e.g. `foo` in
+// `bar(foo = baz)`.
+func isArgumentName(ident *build.Ident, env *bzlenv.Environment) bool {
+	if len(env.Stack) < 2 {
+		return false
+	}
+	assign, ok := env.Stack[len(env.Stack)-1].(*build.AssignExpr)
+	if !ok || assign.LHS != build.Expr(ident) {
+		return false
+	}
+	_, ok = env.Stack[len(env.Stack)-2].(*build.CallExpr)
+	return ok
+}
+
 // globalVariableUsageCheck checks whether there's a usage of a given global variable in the file.
 // It's ok to shadow the name with a local variable and use it.
 func globalVariableUsageCheck(f *build.File, global, alternative string) []*LinterFinding {
@@ -114,7 +128,7 @@ func globalVariableUsageCheck(f *build.File, global, alternative string) []*Lint
 		if !ok {
 			return
 		}
-		if ident.Name != global {
+		if ident.Name != global || isArgumentName(ident, env) {
 			return
 		}
 		if binding := env.Get(ident.Name); binding != nil {
@@ -254,7 +268,7 @@ func notLoadedSymbolUsageCheckInternal(expr *build.Expr, env *bzlenv.Environment
 	var findings []*LinterFinding
 
 	ident, ok := (*expr).(*build.Ident)
-	if !ok {
+	if !ok || isArgumentName(ident, env) {
 		return loads, findings
 	}
 	if binding := env.Get(ident.Name); binding != nil {
-- 
2.43.0


From 497c8f79fd78f11d2c0140adb4c7967fe2dabfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:31 +0000
Subject: [PATCH 54/94] fix: attr-cfg: looking for cfg = "data" modified the
 arguments of the call

---
 warn/warn_bazel_api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index 6346174..a5b950c 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -409,7 +409,7 @@ func attrConfigurationWarning(f *build.File) []*LinterFinding {
 		newCall := *call
 		switch value.Value {
 		case "data":
-			newCall.List = append(newCall.List[:i], newCall.List[i+1:]...)
+			newCall.List = append(append([]build.Expr{}, call.List[:i]...), call.List[i+1:]...)
 			findings = append(findings,
 				makeLinterFinding(param, `cfg = "data" for attr definitions has no effect and should be removed.`,
 					LinterReplacement{expr, &newCall}))
-- 
2.43.0


From 79e59737c32a81d37cfa4b7b3125190f5506c019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 55/94] fix: automatic fixes of nodes nested in other fixed
 nodes were lost

---
 warn/warn.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/warn/warn.go b/warn/warn.go
index 65b7882..93669e0 100644
--- a/warn/warn.go
+++ b/warn/warn.go
@@ -274,7 +274,22 @@ func ruleWarningWrapper(ruleWarning func(call *build.CallExpr, pkg string) *Lint
 
 // runWarningsFunction runs a linter/fixer function over a file and applies the fixes conditionally
 func runWarningsFunction(category string, f *build.File, fct func(f *build.File, pkg string, fileReader *FileReader) []*LinterFinding, formatted *[]byte, mode LintMode, fileReader *FileReader) []*Finding {
-	findings := []*Finding{}
+	findings, fixes := runWarningsFunctionOnce(category, f, fct, formatted, mode, fileReader)
+	for fixes > 0 {
+		// If fixed nodes are nested in each other, some of the fixes may have been lost. Repeat until
+		// there's nothing left to be fixed.
+		previousFixes := fixes
+		findings, fixes = runWarningsFunctionOnce(category, f, fct, formatted, mode, fileReader)
+		if fixes >= previousFixes {
+			break
+		}
+	}
+	return findings
+}
+
+// runWarningsFunctionOnce runs a linter/fixer function over a file once. It also returns the number of
+// applied fixes.
+func runWarningsFunctionOnce(category string, f *build.File, fct func(f *build.File, pkg string, fileReader *FileReader) []*LinterFinding, formatted *[]byte, mode LintMode, fileReader *FileReader) (findings []*Finding, fixes int) {
 	for _, w := range fct(f, f.Pkg, fileReader) {
 		if !DisabledWarning(f, w.Start.Line, category) {
 			finding := makeFinding(f, w.Start, w.End, category, w.URL, w.Message, true, len(w.Replacement) > 0, nil)
@@ -287,6 +302,7 @@ func runWarningsFunction(category string, f *build.File, fct func(f *build.File,
 						*r.Old = r.New
 					}
 					finding = nil
+					fixes++
 				case ModeSuggest:
 					// Apply the fix, calculate the diff and roll back the fix
 					newContents := formatWithFix(f, &w.Replacement)
@@ -305,7 +321,7 @@ func runWarningsFunction(category string, f *build.File, fct func(f *build.File,
 			}
 		}
 	}
-	return findings
+	return findings, fixes
 }
 
 // HasDisablingComment checks if a node has a comment that disables a certain warning
-- 
2.43.0


From 1853da6dec3b7ee40b151360fe1a1ccf6f114c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:09 +0000
Subject: [PATCH 56/94] fix: attr-non-empty: the value was replaced by True if
 it's a variable and not parenthesized

---
 warn/warn_bazel_api.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index a5b950c..461775a 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -52,7 +52,7 @@ func negateExpression(expr build.Expr) build.Expr {
 	}
 
 	boolean, ok := expr.(*build.Ident)
-	if ok {
+	if ok && (boolean.Name == "True" || boolean.Name == "False") {
 		newBoolean := *boolean
 		if boolean.Name == "True" {
 			newBoolean.Name = "False"
@@ -64,8 +64,32 @@ func negateExpression(expr build.Expr) build.Expr {
 
 	return &build.UnaryExpr{
 		Op: "not",
-		X:  expr,
+		X:  parenthesize(expr, false),
+	}
+}
+
+// parenthesize puts parentheses around an expression if it can't be used as an operand of a `not` or,
+// if arithmetic is set, of an arithmetic operator.
+func parenthesize(expr build.Expr, arithmetic bool) build.Expr {
+	switch expr := expr.(type) {
+	case *build.ConditionalExpr, *build.LambdaExpr:
+		return &build.ParenExpr{X: expr}
+	case *build.UnaryExpr:
+		if arithmetic && expr.Op == "not" {
+			return &build.ParenExpr{X: expr}
+		}
+	case *build.BinaryExpr:
+		switch expr.Op {
+		case "and", "or":
+			return &build.ParenExpr{X: expr}
+		case "+", "-", "*", "/", "//", "%":
+			return expr
+		}
+		if arithmetic {
+			return &build.ParenExpr{X: expr}
+		}
 	}
+	return expr
 }
 
 // getParam search for a param with a given name in a given list of function arguments
-- 
2.43.0


From ae9297057374100e5c64c966b7991799132ffb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:01 +0000
Subject: [PATCH 57/94] fix: ctx-args: format_each = before_each + the suffix
 needs parentheses around some values

---
 warn/warn_bazel_api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index 461775a..4457f4d 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -917,7 +917,7 @@ func contextArgsAPIWarning(f *build.File) []*LinterFinding {
 
 				replacements = append(replacements, LinterReplacement{&beforeEach.LHS, &newBeforeEachKw})
 				replacements = append(replacements, LinterReplacement{&beforeEach.RHS, &build.BinaryExpr{
-					X:  beforeEach.RHS,
+					X:  parenthesize(beforeEach.RHS, true),
 					Op: "+",
 					Y:  &build.StringExpr{Value: "%s"},
 				}})
-- 
2.43.0


From 9ade5f2f213d95420b32b864112d7f0e141ca482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 58/94] fix: attr-single-file: nested attribute definitions
 were fixed incorrectly

---
 warn/warn_bazel_api.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index 4457f4d..0314848 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -578,12 +578,14 @@ func attrSingleFileWarning(f *build.File) []*LinterFinding {
 					singleFileIndex--
 				}
 			}
+			newParam := *singleFileParam
+			newParam.LHS = &newSingleFileKw
+			newParam.RHS = singleFileValue
+			newCall.List[singleFileIndex] = &newParam
 		}
 		findings = append(findings,
 			makeLinterFinding(singleFileParam, "single_file is deprecated in favor of allow_single_file.",
 				LinterReplacement{expr, &newCall},
-				LinterReplacement{&singleFileParam.LHS, &newSingleFileKw},
-				LinterReplacement{&singleFileParam.RHS, singleFileValue},
 			))
 	})
 	return findings
-- 
2.43.0


From a7b23bd9194bd503799185d285caf4a1612a810d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:15 +0000
Subject: [PATCH 59/94] fix: native-*: apparent repository names of one
 workspace were used for the files of others

---
 warn/warn_bazel_api.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index 0314848..2dee83f 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -212,8 +212,11 @@ func insertLoad(f *build.File, module string, symbols []string) *LinterReplaceme
 	return &LinterReplacement{&(f.Stmt[i]), edit.NewLoad(module, symbols, symbols)}
 }
 
-// Caches the result of bzlmod.ExtractModuleToApparentNameMapping.
-var moduleToApparentRepoName func(string) string
+// Caches the result of bzlmod.ExtractModuleToApparentNameMapping for the workspace of the last used file reader.
+var (
+	moduleToApparentRepoName       func(string) string
+	moduleToApparentRepoNameReader *FileReader
+)
 
 // useApparentRepoNameIfExternal replaces the module name in a load statement with the apparent repository
 // name used by the root Bazel module (if any).
@@ -222,7 +225,8 @@ func useApparentRepoNameIfExternal(load string, fileReader *FileReader) string {
 		// Not a load from an external repository or we can't load external files.
 		return load
 	}
-	if moduleToApparentRepoName == nil {
+	if moduleToApparentRepoName == nil || moduleToApparentRepoNameReader != fileReader {
+		moduleToApparentRepoNameReader = fileReader
 		moduleToApparentRepoName = bzlmod.ExtractModuleToApparentNameMapping(func(relPath string) *build.File {
 			return fileReader.GetFile("", relPath)
 		})
-- 
2.43.0


From 1dd05d36fd2e7ac98f29616c1c3f99975f646d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:44 +0000
Subject: [PATCH 60/94] fix: native-*: don't load symbols whose names are used
 for something else, don't lose fixes of top-level statements

---
 warn/warn_bazel_api.go | 87 ++++++++++++++++++++++++++++++------------
 1 file changed, 63 insertions(+), 24 deletions(-)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index 2dee83f..ca14b08 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -135,6 +135,15 @@ func isArgumentName(ident *build.Ident, env *bzlenv.Environment) bool {
 	return ok
 }
 
+// isLoadSymbol checks whether the current node is one of the symbols of a load statement.
+func isLoadSymbol(env *bzlenv.Environment) bool {
+	if len(env.Stack) == 0 {
+		return false
+	}
+	_, ok := env.Stack[len(env.Stack)-1].(*build.LoadStmt)
+	return ok
+}
+
 // globalVariableUsageCheck checks whether there's a usage of a given global variable in the file.
 // It's ok to shadow the name with a local variable and use it.
 func globalVariableUsageCheck(f *build.File, global, alternative string) []*LinterFinding {
@@ -245,7 +254,7 @@ func useApparentRepoNameIfExternal(load string, fileReader *FileReader) string {
 	return l.Format()
 }
 
-func notLoadedFunctionUsageCheckInternal(expr *build.Expr, env *bzlenv.Environment, globals []string, loadFrom string, fileReader *FileReader) ([]string, []*LinterFinding) {
+func notLoadedFunctionUsageCheckInternal(expr *build.Expr, env *bzlenv.Environment, globals []string, loaded map[string]bool, loadFrom string, fileReader *FileReader) ([]string, []*LinterFinding) {
 	var loads []string
 	var findings []*LinterFinding
 
@@ -255,16 +264,23 @@ func notLoadedFunctionUsageCheckInternal(expr *build.Expr, env *bzlenv.Environme
 	}
 
 	var name string
+	var needsLoad bool
 	var replacements []LinterReplacement
 	switch node := call.X.(type) {
 	case *build.DotExpr:
 		// Maybe native.`global`?
 		ident, ok := node.X.(*build.Ident)
-		if !ok || ident.Name != "native" {
+		if !ok || ident.Name != "native" || env.Get("native") != nil {
 			return loads, findings
 		}
 
 		name = node.Name
+		if binding := env.Get(name); binding == nil {
+			needsLoad = true
+		} else if binding.Kind != bzlenv.Imported || !loaded[name] {
+			// The name is used for something else in this file, `native.foo()` can't be replaced automatically.
+			break
+		}
 		// Replace `native.foo()` with `foo()`
 		newCall := *call
 		newCall.X = &build.Ident{Name: node.Name}
@@ -275,13 +291,16 @@ func notLoadedFunctionUsageCheckInternal(expr *build.Expr, env *bzlenv.Environme
 			return loads, findings
 		}
 		name = node.Name
+		needsLoad = true
 	default:
 		return loads, findings
 	}
 
 	for _, global := range globals {
 		if name == global {
-			loads = append(loads, name)
+			if needsLoad {
+				loads = append(loads, name)
+			}
 			findings = append(findings,
 				makeLinterFinding(call.X, fmt.Sprintf(`Function %q is not global anymore and needs to be loaded from %q.`, global, useApparentRepoNameIfExternal(loadFrom, fileReader)), replacements...))
 			break
@@ -296,7 +315,7 @@ func notLoadedSymbolUsageCheckInternal(expr *build.Expr, env *bzlenv.Environment
 	var findings []*LinterFinding
 
 	ident, ok := (*expr).(*build.Ident)
-	if !ok || isArgumentName(ident, env) {
+	if !ok || isArgumentName(ident, env) || isLoadSymbol(env) {
 		return loads, findings
 	}
 	if binding := env.Get(ident.Name); binding != nil {
@@ -318,42 +337,62 @@ func notLoadedSymbolUsageCheckInternal(expr *build.Expr, env *bzlenv.Environment
 // notLoadedUsageCheck checks whether there's a usage of a given not imported function or symbol in the file
 // and adds a load statement if necessary.
 func notLoadedUsageCheck(f *build.File, fileReader *FileReader, functions, symbols []string, loadFrom string) []*LinterFinding {
-	toLoad := make(map[string]bool)
-	var findings []*LinterFinding
+	module := useApparentRepoNameIfExternal(loadFrom, fileReader)
 
-	var walk func(expr *build.Expr, env *bzlenv.Environment)
-	walk = func(expr *build.Expr, env *bzlenv.Environment) {
-		defer bzlenv.WalkOnceWithEnvironment(*expr, env, walk)
-
-		functionLoads, functionFindings := notLoadedFunctionUsageCheckInternal(expr, env, functions, loadFrom, fileReader)
-		findings = append(findings, functionFindings...)
-		for _, load := range functionLoads {
-			toLoad[load] = true
+	// Symbols that are already loaded
+	loaded := make(map[string]bool)
+	for _, stmt := range f.Stmt {
+		load, ok := stmt.(*build.LoadStmt)
+		if !ok || load.Module.Value != module {
+			continue
 		}
+		for i, to := range load.To {
+			if load.From[i].Name == to.Name {
+				loaded[to.Name] = true
+			}
+		}
+	}
+
+	check := func() (map[string]bool, []*LinterFinding) {
+		toLoad := make(map[string]bool)
+		var findings []*LinterFinding
+
+		var walk func(expr *build.Expr, env *bzlenv.Environment)
+		walk = func(expr *build.Expr, env *bzlenv.Environment) {
+			defer bzlenv.WalkOnceWithEnvironment(*expr, env, walk)
+
+			functionLoads, functionFindings := notLoadedFunctionUsageCheckInternal(expr, env, functions, loaded, loadFrom, fileReader)
+			findings = append(findings, functionFindings...)
+			for _, load := range functionLoads {
+				toLoad[load] = true
+			}
 
-		symbolLoads, symbolFindings := notLoadedSymbolUsageCheckInternal(expr, env, symbols, loadFrom, fileReader)
-		findings = append(findings, symbolFindings...)
-		for _, load := range symbolLoads {
-			toLoad[load] = true
+			symbolLoads, symbolFindings := notLoadedSymbolUsageCheckInternal(expr, env, symbols, loadFrom, fileReader)
+			findings = append(findings, symbolFindings...)
+			for _, load := range symbolLoads {
+				toLoad[load] = true
+			}
 		}
+		var expr build.Expr = f
+		walk(&expr, bzlenv.NewEnvironment())
+		return toLoad, findings
 	}
-	var expr build.Expr = f
-	walk(&expr, bzlenv.NewEnvironment())
 
+	toLoad, findings := check()
 	if len(toLoad) == 0 {
-		return nil
+		return findings
 	}
 
-	loadFrom = useApparentRepoNameIfExternal(loadFrom, fileReader)
-
 	loads := []string{}
 	for l := range toLoad {
 		loads = append(loads, l)
 	}
 
 	sort.Strings(loads)
-	replacement := insertLoad(f, loadFrom, loads)
+	replacement := insertLoad(f, module, loads)
 	if replacement != nil {
+		// Inserting a load statement moves the top-level statements, find the usages again.
+		_, findings = check()
 		// Add the same replacement to all relevant findings.
 		for _, f := range findings {
 			f.Replacement = append(f.Replacement, *replacement)
-- 
2.43.0


From c63e74177d51209865239da80fd4fcd0ab074c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:58 +0000
Subject: [PATCH 61/94] fix: native-*: keep the mapping of repository names in
 the file reader

---
 warn/multifile.go      |  3 +++
 warn/warn_bazel_api.go | 22 +++++++++++-----------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/warn/multifile.go b/warn/multifile.go
index 73f5af4..e99d727 100644
--- a/warn/multifile.go
+++ b/warn/multifile.go
@@ -25,6 +25,9 @@ import (
 type FileReader struct {
 	cache    map[string]*build.File
 	readFile func(string) ([]byte, error)
+
+	// Caches the result of bzlmod.ExtractModuleToApparentNameMapping.
+	moduleToApparentRepoName func(string) string
 }
 
 // NewFileReader creates and initializes a FileReader instance with a
diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index ca14b08..5d0879d 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -221,11 +221,8 @@ func insertLoad(f *build.File, module string, symbols []string) *LinterReplaceme
 	return &LinterReplacement{&(f.Stmt[i]), edit.NewLoad(module, symbols, symbols)}
 }
 
-// Caches the result of bzlmod.ExtractModuleToApparentNameMapping for the workspace of the last used file reader.
-var (
-	moduleToApparentRepoName       func(string) string
-	moduleToApparentRepoNameReader *FileReader
-)
+// If set, it's used instead of the mapping defined by the MODULE.bazel file of the workspace.
+var moduleToApparentRepoName func(string) string
 
 // useApparentRepoNameIfExternal replaces the module name in a load statement with the apparent repository
 // name used by the root Bazel module (if any).
@@ -234,14 +231,17 @@ func useApparentRepoNameIfExternal(load string, fileReader *FileReader) string {
 		// Not a load from an external repository or we can't load external files.
 		return load
 	}
-	if moduleToApparentRepoName == nil || moduleToApparentRepoNameReader != fileReader {
-		moduleToApparentRepoNameReader = fileReader
-		moduleToApparentRepoName = bzlmod.ExtractModuleToApparentNameMapping(func(relPath string) *build.File {
-			return fileReader.GetFile("", relPath)
-		})
+	mapping := moduleToApparentRepoName
+	if mapping == nil {
+		if fileReader.moduleToApparentRepoName == nil {
+			fileReader.moduleToApparentRepoName = bzlmod.ExtractModuleToApparentNameMapping(func(relPath string) *build.File {
+				return fileReader.GetFile("", relPath)
+			})
+		}
+		mapping = fileReader.moduleToApparentRepoName
 	}
 	l := labels.Parse(load)
-	apparentName := moduleToApparentRepoName(l.Repository)
+	apparentName := mapping(l.Repository)
 	if apparentName == "" {
 		// The module that hosts the load is not a bazel_dep of the root module. We assume that's
 		// because it is a WORKSPACE repo, which uses the legacy name.
-- 
2.43.0


From 05ab55898fb16844fa01ca2092d35307c538daab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 62/94] fix: native-*: unused placeholders for load statements
 were left in the file in warn mode

---
 warn/warn.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/warn/warn.go b/warn/warn.go
index 93669e0..a2bf174 100644
--- a/warn/warn.go
+++ b/warn/warn.go
@@ -321,6 +321,17 @@ func runWarningsFunctionOnce(category string, f *build.File, fct func(f *build.F
 			}
 		}
 	}
+
+	// Remove the placeholders for new statements that haven't been used.
+	var stmts []build.Expr
+	for _, stmt := range f.Stmt {
+		if stmt != nil {
+			stmts = append(stmts, stmt)
+		}
+	}
+	if len(stmts) < len(f.Stmt) {
+		f.Stmt = stmts
+	}
 	return findings, fixes
 }
 
-- 
2.43.0


From 081e920ea555f582c810bdc0ad6dc9ac7f560ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 63/94] fix: the order of symbols added to a load statement
 depended on the map iteration order

---
 edit/edit.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/edit/edit.go b/edit/edit.go
index 5c291f6..fdf3d32 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -1073,9 +1073,13 @@ func AppendToLoad(load *build.LoadStmt, from, to []string) bool {
 	}
 
 	// Append the remaining loads to the load statement.
-	for s := range symbolsToLoad {
+	for _, s := range to {
+		if _, ok := symbolsToLoad[s]; !ok {
+			continue
+		}
 		load.From = append(load.From, &build.Ident{Name: symbolsToLoad[s]})
 		load.To = append(load.To, &build.Ident{Name: s})
+		delete(symbolsToLoad, s)
 	}
 	return true
 }
-- 
2.43.0


From 1aac88d4c6f821cc79493ac88d9fcd3a288455ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:41 +0000
Subject: [PATCH 64/94] fix: skylark-comment, skylark-docstring: several
 occurrences in a string were replaced at wrong positions, and the symbol
 after a name was ignored

---
 warn/warn_cosmetic.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/warn/warn_cosmetic.go b/warn/warn_cosmetic.go
index e0401c0..6023e46 100644
--- a/warn/warn_cosmetic.go
+++ b/warn/warn_cosmetic.go
@@ -224,16 +224,18 @@ func skylarkToStarlark(s string) string {
 // supported by Go regexp module.
 func replaceSkylark(s string) (newString string, changed bool) {
 	skylarkRegex := regexp.MustCompile("(?i)skylark")
-	newString = s
+	end := 0 // end of the part of s that's already in newString
 	for _, r := range skylarkRegex.FindAllStringIndex(s, -1) {
 		if r[0] > 0 && s[r[0]-1] == '/' {
 			continue
 		}
-		if r[1] < len(s)-1 && s[r[1]+1] == '/' {
+		if r[1] < len(s) && s[r[1]] == '/' {
 			continue
 		}
-		newString = newString[:r[0]] + skylarkToStarlark(newString[r[0]:r[1]]) + newString[r[1]:]
+		newString += s[end:r[0]] + skylarkToStarlark(s[r[0]:r[1]])
+		end = r[1]
 	}
+	newString += s[end:]
 	return newString, newString != s
 }
 
-- 
2.43.0


From e31dd31665d23db35986e25ce59da0188da7df5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:41 +0000
Subject: [PATCH 65/94] fix: bzl-visibility: //ab isn't inside //a

---
 warn/warn_visibility.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/warn/warn_visibility.go b/warn/warn_visibility.go
index c02c659..a0df8bf 100644
--- a/warn/warn_visibility.go
+++ b/warn/warn_visibility.go
@@ -28,6 +28,12 @@ import (
 
 var internalDirectory = regexp.MustCompile("/(internal|private)[/:]")
 
+// isInDirectory checks whether a label belongs to a package or to one of its subpackages or directories.
+func isInDirectory(label, directory string) bool {
+	rest := strings.TrimPrefix(label, directory)
+	return rest != label && (strings.HasSuffix(directory, "/") || strings.HasPrefix(rest, "/") || strings.HasPrefix(rest, ":"))
+}
+
 func bzlVisibilityWarning(f *build.File) []*LinterFinding {
 	var findings []*LinterFinding
 
@@ -64,8 +70,8 @@ func bzlVisibilityWarning(f *build.File) []*LinterFinding {
 			continue
 		}
 
-		if strings.HasPrefix(path, chunks[0]) ||
-			strings.HasPrefix(strings.Replace(path, "/javatests/", "/java/", 1), chunks[0]) {
+		if isInDirectory(path, chunks[0]) ||
+			isInDirectory(strings.Replace(path, "/javatests/", "/java/", 1), chunks[0]) {
 			continue
 		}
 
-- 
2.43.0


From 339438d965d504245b01856a1c639bf901d400f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:45 +0000
Subject: [PATCH 66/94] fix: skylark-comment: comments before closing brackets,
 of else branches, dictionary items and loaded symbols were ignored or not
 fixed

---
 warn/warn_cosmetic.go | 100 ++++++++++++++++++++++++++++++++----------
 1 file changed, 77 insertions(+), 23 deletions(-)

diff --git a/warn/warn_cosmetic.go b/warn/warn_cosmetic.go
index 6023e46..06eee63 100644
--- a/warn/warn_cosmetic.go
+++ b/warn/warn_cosmetic.go
@@ -239,45 +239,99 @@ func replaceSkylark(s string) (newString string, changed bool) {
 	return newString, newString != s
 }
 
+// commentsOf returns all comments that belong to a node: the comments attached to the node itself, to its closing
+// bracket (or to its `else`), and to those of its children that can't be replaced individually.
+func commentsOf(expr build.Expr) []*build.Comments {
+	comments := []*build.Comments{expr.Comment()}
+	switch expr := expr.(type) {
+	case *build.CallExpr:
+		comments = append(comments, &expr.End.Comments)
+	case *build.ListExpr:
+		comments = append(comments, &expr.End.Comments)
+	case *build.SetExpr:
+		comments = append(comments, &expr.End.Comments)
+	case *build.TupleExpr:
+		comments = append(comments, &expr.End.Comments)
+	case *build.ParenExpr:
+		comments = append(comments, &expr.End.Comments)
+	case *build.Comprehension:
+		comments = append(comments, &expr.End.Comments)
+	case *build.DictExpr:
+		comments = append(comments, &expr.End.Comments)
+		for _, item := range expr.List {
+			comments = append(comments, item.Comment())
+		}
+	case *build.LoadStmt:
+		comments = append(comments, expr.Module.Comment(), &expr.Rparen.Comments)
+		for i := range expr.From {
+			comments = append(comments, expr.From[i].Comment(), expr.To[i].Comment())
+		}
+	case *build.IfStmt:
+		comments = append(comments, &expr.ElsePos.Comments)
+	}
+	return comments
+}
+
+// copyWithComments copies a node together with the comments returned by commentsOf.
+func copyWithComments(expr build.Expr) build.Expr {
+	newExpr := expr.Copy()
+	switch newExpr := newExpr.(type) {
+	case *build.DictExpr:
+		newExpr.List = append([]*build.KeyValueExpr{}, newExpr.List...)
+		for i, item := range newExpr.List {
+			newExpr.List[i] = item.Copy().(*build.KeyValueExpr)
+		}
+	case *build.LoadStmt:
+		newExpr.Module = newExpr.Module.Copy().(*build.StringExpr)
+		newExpr.From = append([]*build.Ident{}, newExpr.From...)
+		newExpr.To = append([]*build.Ident{}, newExpr.To...)
+		for i := range newExpr.From {
+			newExpr.From[i] = newExpr.From[i].Copy().(*build.Ident)
+			newExpr.To[i] = newExpr.To[i].Copy().(*build.Ident)
+		}
+	}
+	return newExpr
+}
+
 func skylarkCommentWarning(f *build.File) []*LinterFinding {
 	var findings []*LinterFinding
 	msg := `"Skylark" is an outdated name of the language, please use "starlark" instead.`
 
 	// Check comments
 	build.WalkPointers(f, func(expr *build.Expr, stack []build.Expr) {
-		comments := (*expr).Comment()
-		newComments := build.Comments{
-			Before: append([]build.Comment{}, comments.Before...),
-			Suffix: append([]build.Comment{}, comments.Suffix...),
-			After:  append([]build.Comment{}, comments.After...),
+		if len(stack) > 0 {
+			switch stack[len(stack)-1].(type) {
+			case *build.DictExpr, *build.LoadStmt:
+				// The comments are taken into account together with the parent node
+				return
+			}
 		}
+
 		isModified := false
 		var start, end build.Position
 
-		for _, block := range []*[]build.Comment{&newComments.Before, &newComments.Suffix, &newComments.After} {
-			for i, comment := range *block {
-				// Don't trigger on disabling comments
-				if strings.Contains(comment.Token, "disable=skylark-docstring") {
-					continue
-				}
-				newValue, changed := replaceSkylark(comment.Token)
-				(*block)[i] = build.Comment{
-					Start: comment.Start,
-					Token: newValue,
-				}
-				if changed {
-					isModified = true
-					start, end = comment.Span()
+		newExpr := copyWithComments(*expr)
+		for _, comments := range commentsOf(newExpr) {
+			for _, block := range []*[]build.Comment{&comments.Before, &comments.Suffix, &comments.After} {
+				newBlock := append([]build.Comment{}, *block...)
+				for i, comment := range newBlock {
+					// Don't trigger on disabling comments
+					if strings.Contains(comment.Token, "disable=skylark-docstring") {
+						continue
+					}
+					newValue, changed := replaceSkylark(comment.Token)
+					if changed {
+						newBlock[i].Token = newValue
+						isModified = true
+						start, end = comment.Span()
+					}
 				}
+				*block = newBlock
 			}
 		}
 		if !isModified {
 			return
 		}
-		newExpr := (*expr).Copy()
-		newExpr.Comment().Before = newComments.Before
-		newExpr.Comment().Suffix = newComments.Suffix
-		newExpr.Comment().After = newComments.After
 		finding := makeLinterFinding(*expr, msg, LinterReplacement{expr, newExpr})
 		finding.Start = start
 		finding.End = end
-- 
2.43.0


From 3bdde9332690746cc9817fb9ec649cef17abdecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:10 +0000
Subject: [PATCH 67/94] fix: Edit and WalkPointers: replaced dictionary items
 and comprehension clauses were lost

---
 build/walk.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/build/walk.go b/build/walk.go
index dd279a7..844f8ca 100644
--- a/build/walk.go
+++ b/build/walk.go
@@ -171,11 +171,12 @@ func WalkOnce(v Expr, f func(x *Expr)) {
 		for i := range v.List {
 			e := Expr(v.List[i])
 			f(&e)
+			v.List[i] = e.(*KeyValueExpr)
 		}
 	case *Comprehension:
 		f(&v.Body)
-		for _, c := range v.Clauses {
-			f(&c)
+		for i := range v.Clauses {
+			f(&v.Clauses[i])
 		}
 	case *IfClause:
 		f(&v.Cond)
-- 
2.43.0


From ce1c50d4d0fb3bef51ec315b22f371df63134a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:57 +0000
Subject: [PATCH 68/94] fix: Walk and Edit: visit types of parameters and
 functions

---
 build/walk.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/build/walk.go b/build/walk.go
index 844f8ca..6fd95a2 100644
--- a/build/walk.go
+++ b/build/walk.go
@@ -199,10 +199,18 @@ func WalkOnce(v Expr, f func(x *Expr)) {
 			f(&to)
 			v.To[i] = to.(*Ident)
 		}
+	case *TypedIdent:
+		ident := Expr(v.Ident)
+		f(&ident)
+		v.Ident = ident.(*Ident)
+		f(&v.Type)
 	case *DefStmt:
 		for i := range v.Params {
 			f(&v.Params[i])
 		}
+		if v.Type != nil {
+			f(&v.Type)
+		}
 		for i := range v.Body {
 			f(&v.Body[i])
 		}
-- 
2.43.0


From b2cecb95262fcb0c9716447fbc7b6d1d8f85b2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:17 +0000
Subject: [PATCH 69/94] fix: function-docstring*: comments aren't statements

---
 warn/warn_docstring.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/warn/warn_docstring.go b/warn/warn_docstring.go
index 71b3256..4b5d806 100644
--- a/warn/warn_docstring.go
+++ b/warn/warn_docstring.go
@@ -69,6 +69,9 @@ A module docstring is a string literal (not a comment) which should be the first
 func stmtsCount(stmts []build.Expr) int {
 	result := 0
 	for _, stmt := range stmts {
+		if _, ok := stmt.(*build.CommentBlock); ok {
+			continue
+		}
 		result++
 		switch stmt := stmt.(type) {
 		case *build.IfStmt:
-- 
2.43.0


From a785a66a3440d903d35ed51f3c090ac77c2d6845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:35 +0000
Subject: [PATCH 70/94] fix: the order of findings was not deterministic

---
 warn/warn.go           |  2 +-
 warn/warn_docstring.go | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/warn/warn.go b/warn/warn.go
index a2bf174..098a40f 100644
--- a/warn/warn.go
+++ b/warn/warn.go
@@ -399,7 +399,7 @@ func FileWarnings(f *build.File, enabledWarnings []string, formatted *[]byte, mo
 			os.Exit(1)
 		}
 	}
-	sort.Slice(findings, func(i, j int) bool { return findings[i].Start.Line < findings[j].Start.Line })
+	sort.SliceStable(findings, func(i, j int) bool { return findings[i].Start.Line < findings[j].Start.Line })
 	return findings
 }
 
diff --git a/warn/warn_docstring.go b/warn/warn_docstring.go
index 4b5d806..5481f93 100644
--- a/warn/warn_docstring.go
+++ b/warn/warn_docstring.go
@@ -19,6 +19,7 @@ package warn
 import (
 	"fmt"
 	"regexp"
+	"sort"
 	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
@@ -310,7 +311,7 @@ func functionDocstringArgsWarning(f *build.File) []*LinterFinding {
 			if name == "" {
 				continue
 			}
-			name = op + name  // *args or **kwargs
+			name = op + name // *args or **kwargs
 			paramNames[name] = true
 			if _, ok := info.args[name]; !ok {
 				notDocumentedArguments = append(notDocumentedArguments, name)
@@ -352,10 +353,17 @@ one (preferably two) space more than "Args:", for example:
 		}
 
 		// Check whether all documented arguments actually exist in the function signature.
-		for name, pos := range info.args {
-			if paramNames[name] {
-				continue
+		var unknownArguments []string
+		for name := range info.args {
+			if !paramNames[name] {
+				unknownArguments = append(unknownArguments, name)
 			}
+		}
+		sort.Slice(unknownArguments, func(i, j int) bool {
+			return info.args[unknownArguments[i]].Line < info.args[unknownArguments[j]].Line
+		})
+		for _, name := range unknownArguments {
+			pos := info.args[name]
 			msg := fmt.Sprintf("Argument %q is documented but doesn't exist in the function signature.", name)
 			// *args and **kwargs should be documented with asterisks
 			for _, asterisks := range []string{"*", "**"} {
-- 
2.43.0


From 5cf8cdbbe72f4ea22c3901d7a986151b728fe314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 71/94] fix: unused-variable: the order of findings was random

---
 warn/warn_control_flow.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index 92f5062..ce88b01 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -20,6 +20,7 @@ package warn
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
@@ -590,6 +591,10 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 
 func unusedVariableWarning(f *build.File) []*LinterFinding {
 	_, findings := unusedVariableCheck(f, f)
+	// The symbols are collected in maps, make the order deterministic.
+	sort.Slice(findings, func(i, j int) bool {
+		return findings[i].Start.Byte < findings[j].Start.Byte
+	})
 	return findings
 }
 
-- 
2.43.0


From bcd727fd13ce68092d74c75825253683b13466ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:12 +0000
Subject: [PATCH 72/94] fix: comments that disable function-docstring-args etc.
 also disabled function-docstring

---
 warn/warn.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/warn/warn.go b/warn/warn.go
index 098a40f..09cc57b 100644
--- a/warn/warn.go
+++ b/warn/warn.go
@@ -22,9 +22,9 @@ import (
 	"log"
 	"os"
 	"sort"
+	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
-	"github.com/bazelbuild/buildtools/edit"
 )
 
 // LintMode is an enum representing a linter mode. Can be either "warn", "fix", or "suggest"
@@ -337,8 +337,32 @@ func runWarningsFunctionOnce(category string, f *build.File, fct func(f *build.F
 
 // HasDisablingComment checks if a node has a comment that disables a certain warning
 func HasDisablingComment(expr build.Expr, warning string) bool {
-	return edit.ContainsComments(expr, "buildifier: disable="+warning) ||
-		edit.ContainsComments(expr, "buildozer: disable="+warning)
+	comments := expr.Comment()
+	for _, list := range [][]build.Comment{comments.Before, comments.Suffix, comments.After} {
+		for _, comment := range list {
+			token := strings.ToLower(comment.Token)
+			if containsName(token, "buildifier: disable="+warning) || containsName(token, "buildozer: disable="+warning) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
+// containsName checks whether a text contains a string that isn't followed by other characters of a
+// category name, e.g. a comment that disables "function-docstring-args" doesn't disable "function-docstring".
+func containsName(text, name string) bool {
+	name = strings.ToLower(name)
+	for {
+		i := strings.Index(text, name)
+		if i < 0 {
+			return false
+		}
+		text = text[i+len(name):]
+		if text == "" || !strings.ContainsRune("abcdefghijklmnopqrstuvwxyz0123456789_-", rune(text[0])) {
+			return true
+		}
+	}
 }
 
 // DisabledWarning checks if the warning was disabled by a comment.
-- 
2.43.0


From 4e35e7a2d6d1dad27a7bb90238d04ba88e7678e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:09 +0000
Subject: [PATCH 73/94] fix: -warnings=+print reported all findings of enabled
 warnings twice

---
 buildifier/config/validation.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/buildifier/config/validation.go b/buildifier/config/validation.go
index 87cc393..4aca35f 100644
--- a/buildifier/config/validation.go
+++ b/buildifier/config/validation.go
@@ -103,6 +103,14 @@ func ValidateWarnings(warnings *string, allWarnings, defaultWarnings *[]string)
 
 	// Check lint warnings
 	var warningsList []string
+	added := map[string]bool{}
+	add := func(warning string) {
+		// A category that is run twice reports everything twice.
+		if !added[warning] {
+			added[warning] = true
+			warningsList = append(warningsList, warning)
+		}
+	}
 	switch *warnings {
 	case "", "default":
 		warningsList = *defaultWarnings
@@ -120,7 +128,7 @@ func ValidateWarnings(warnings *string, allWarnings, defaultWarnings *[]string)
 			} else if strings.HasPrefix(warning, "-") {
 				minus[warning[1:]] = true
 			} else {
-				warningsList = append(warningsList, warning)
+				add(warning)
 			}
 		}
 		if len(warningsList) > 0 && (len(plus) > 0 || len(minus) > 0) {
@@ -129,11 +137,11 @@ func ValidateWarnings(warnings *string, allWarnings, defaultWarnings *[]string)
 		if len(warningsList) == 0 {
 			for _, warning := range *defaultWarnings {
 				if !minus[warning] {
-					warningsList = append(warningsList, warning)
+					add(warning)
 				}
 			}
 			for warning := range plus {
-				warningsList = append(warningsList, warning)
+				add(warning)
 			}
 		}
 	}
-- 
2.43.0


From fbdf22fadd2d784f221e39a7117844eebe1f69ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:27 +0000
Subject: [PATCH 74/94] fix: convertast panicked on dictionary comprehensions

---
 convertast/convert_ast.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/convertast/convert_ast.go b/convertast/convert_ast.go
index 6978354..a29028d 100644
--- a/convertast/convert_ast.go
+++ b/convertast/convert_ast.go
@@ -228,14 +228,15 @@ func convExpr(e syntax.Expr) build.Expr {
 	case *syntax.DictExpr:
 		list := []*build.KeyValueExpr{}
 		for i := range e.List {
-			entry := e.List[i].(*syntax.DictEntry)
-			list = append(list, &build.KeyValueExpr{
-				Key:      convExpr(entry.Key),
-				Value:    convExpr(entry.Value),
-				Comments: convComments(entry.Comments()),
-			})
+			list = append(list, convExpr(e.List[i]).(*build.KeyValueExpr))
 		}
 		return &build.DictExpr{List: list, Comments: convComments(e.Comments())}
+	case *syntax.DictEntry:
+		return &build.KeyValueExpr{
+			Key:      convExpr(e.Key),
+			Value:    convExpr(e.Value),
+			Comments: convComments(e.Comments()),
+		}
 	case *syntax.CondExpr:
 		return &build.ConditionalExpr{
 			Then:     convExpr(e.True),
-- 
2.43.0


From 305b1605ca8a58cacc292c37a1793a461e3b0f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:27 +0000
Subject: [PATCH 75/94] fix: convertast panicked on integers that don't fit 64
 bits

---
 convertast/convert_ast.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/convertast/convert_ast.go b/convertast/convert_ast.go
index a29028d..f073026 100644
--- a/convertast/convert_ast.go
+++ b/convertast/convert_ast.go
@@ -22,7 +22,6 @@ package convertast
 
 import (
 	"fmt"
-	"strconv"
 	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
@@ -172,7 +171,7 @@ func convExpr(e syntax.Expr) build.Expr {
 		switch e.Token {
 		case syntax.INT:
 			return &build.LiteralExpr{
-				Token:    strconv.FormatInt(e.Value.(int64), 10),
+				Token:    fmt.Sprint(e.Value), // int64 or *big.Int
 				Comments: convComments(e.Comments())}
 		case syntax.FLOAT:
 			return &build.LiteralExpr{
-- 
2.43.0


From 954f7aee1a9bba57040334840cd60ad9f9c7c275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:27 +0000
Subject: [PATCH 76/94] fix: convertast converted one-element tuples to trees
 that are printed as parenthesised expressions

---
 convertast/convert_ast.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/convertast/convert_ast.go b/convertast/convert_ast.go
index f073026..03041b5 100644
--- a/convertast/convert_ast.go
+++ b/convertast/convert_ast.go
@@ -251,6 +251,19 @@ func convExpr(e syntax.Expr) build.Expr {
 			Curly:    e.Curly,
 		}
 	case *syntax.ParenExpr:
+		if tuple, ok := e.X.(*syntax.TupleExpr); ok && !tuple.Lparen.IsValid() && len(tuple.List) == 1 {
+			// The parentheses of a one-element tuple are a part of the tuple, otherwise its comma is lost.
+			outer, inner := convComments(e.Comments()), convComments(tuple.Comments())
+			return &build.TupleExpr{
+				List: convExprs(tuple.List),
+				Comments: build.Comments{
+					Before: append(outer.Before, inner.Before...),
+					Suffix: append(inner.Suffix, outer.Suffix...),
+					After:  append(inner.After, outer.After...),
+				},
+				ForceCompact: singleLine(e),
+			}
+		}
 		return &build.ParenExpr{
 			X:        convExpr(e.X),
 			Comments: convComments(e.Comments()),
-- 
2.43.0


From 796a2f0c1254183fecd3dea3440770a194ac2c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:27 +0000
Subject: [PATCH 77/94] fix: convertast dropped the comments of load statements

---
 convertast/convert_ast.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/convertast/convert_ast.go b/convertast/convert_ast.go
index 03041b5..83cda1e 100644
--- a/convertast/convert_ast.go
+++ b/convertast/convert_ast.go
@@ -54,6 +54,7 @@ func convStmt(stmt syntax.Stmt) build.Expr {
 		}
 	case *syntax.LoadStmt:
 		load := &build.LoadStmt{
+			Comments:     convComments(stmt.Comments()),
 			Module:       convExpr(stmt.Module).(*build.StringExpr),
 			ForceCompact: singleLine(stmt),
 		}
-- 
2.43.0


From 9fa7eb3a46bb9f3c672cf1fba1ce6d95d9d057ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:27 +0000
Subject: [PATCH 78/94] fix: buildozer returned 3 (nothing changed) after
 changing the file on the standard input

---
 edit/buildozer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index a5573e5..9d51379 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -1271,7 +1271,7 @@ func rewrite(opts *Options, commandsForFile commandsForFile) *rewriteResult {
 
 	if opts.Stdout || name == stdinPackageName {
 		opts.OutWriter.Write(ndata)
-		return &rewriteResult{file: name, errs: errs, records: records}
+		return &rewriteResult{file: name, errs: errs, modified: name == stdinPackageName && !bytes.Equal(data, ndata), records: records}
 	}
 
 	if bytes.Equal(data, ndata) {
@@ -1536,7 +1536,7 @@ func Buildozer(opts *Options, args []string) int {
 		for _, err := range fileResults.errs {
 			fmt.Fprintf(opts.ErrWriter, "%s: %s\n", fileResults.file, err)
 		}
-		if fileResults.modified && !opts.Quiet {
+		if fileResults.modified && fileResults.file != stdinPackageName && !opts.Quiet {
 			fmt.Fprintf(opts.ErrWriter, "fixed %s\n", fileResults.file)
 		}
 		if fileResults.records != nil {
-- 
2.43.0


From 84be78538a452a8ffaadbfe0f42f6c7295d790d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:42 +0000
Subject: [PATCH 79/94] fix: slices with a step lost it if they had been
 converted from Starlark's syntax trees

---
 build/print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/print.go b/build/print.go
index 01dc11b..481d682 100644
--- a/build/print.go
+++ b/build/print.go
@@ -725,7 +725,7 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		if v.To != nil {
 			p.expr(v.To, precLow)
 		}
-		if v.SecondColon.Byte != 0 {
+		if v.SecondColon.Byte != 0 || v.Step != nil { // nodes that weren't parsed have no positions
 			p.printf(":")
 			if v.Step != nil {
 				p.expr(v.Step, precLow)
-- 
2.43.0


From fb4b784d0b53b53409619585f64a062c1d54a7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:42 +0000
Subject: [PATCH 80/94] fix: buildozer fix splitOptions split quoted and
 escaped options and variables

---
 edit/fix.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edit/fix.go b/edit/fix.go
index 1b91365..aad52a4 100644
--- a/edit/fix.go
+++ b/edit/fix.go
@@ -62,7 +62,8 @@ func splitStrings(list *build.ListExpr) bool {
 			all = append(all, e)
 			continue
 		}
-		if strings.Contains(str.Value, " ") && !strings.Contains(str.Value, "'\"") && !strings.Contains(str.Value, "$(location") {
+		// Bazel tokenizes options like a shell, spaces that are quoted, escaped, or inside of a variable don't separate them.
+		if strings.Contains(str.Value, " ") && !strings.ContainsAny(str.Value, "'\"\\") && !strings.Contains(str.Value, "$(") {
 			fixed = true
 			for i, substr := range strings.Fields(str.Value) {
 				item := &build.StringExpr{Value: substr}
-- 
2.43.0


From a5ba08e2b8253b4b29f6d26c0b385053b15f7eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:42 +0000
Subject: [PATCH 81/94] fix: buildozer fix genruleFixHeuristicLabels nested
 $(location) in $(execpath) etc.

---
 edit/fix.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edit/fix.go b/edit/fix.go
index aad52a4..33ffd29 100644
--- a/edit/fix.go
+++ b/edit/fix.go
@@ -169,7 +169,8 @@ func explicitHeuristicLabels(s string, labels map[string]bool) string {
 	for i, part := range parts {
 		// We don't want to add $(location when it's already present.
 		// So we skip the next label when we see location(s).
-		if part == "location" || part == "locations" {
+		switch part {
+		case "location", "locations", "execpath", "execpaths", "rootpath", "rootpaths", "rlocationpath", "rlocationpaths":
 			canChange = false
 		}
 		if !labels[part] {
-- 
2.43.0


From 9e57dc018334f126060d4579a2b7a13277685d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:42 +0000
Subject: [PATCH 82/94] fix: buildozer fix made syntax errors of keyword
 arguments of append, extend and licenses

---
 edit/fix.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/edit/fix.go b/edit/fix.go
index 33ffd29..3d58f5c 100644
--- a/edit/fix.go
+++ b/edit/fix.go
@@ -309,6 +309,17 @@ func mergeLiteralLists(_ *build.File, r *build.Rule, _ string) bool {
 	return fixed
 }
 
+// isPlainArgument tells positional arguments from keyword arguments, *args and **kwargs.
+func isPlainArgument(arg build.Expr) bool {
+	switch arg := arg.(type) {
+	case *build.AssignExpr:
+		return false
+	case *build.UnaryExpr:
+		return arg.Op != "*" && arg.Op != "**"
+	}
+	return true
+}
+
 // usePlusEqual replaces uses of extend and append with the += operator.
 // e.g. foo.extend(bar)  =>  foo += bar
 //
@@ -321,7 +332,7 @@ func usePlusEqual(f *build.File) bool {
 			continue
 		}
 		dot, ok := call.X.(*build.DotExpr)
-		if !ok || len(call.List) != 1 {
+		if !ok || len(call.List) != 1 || !isPlainArgument(call.List[0]) {
 			continue
 		}
 		obj, ok := dot.X.(*build.Ident)
@@ -450,7 +461,7 @@ func moveToPackage(f *build.File, attrname string) bool {
 	fixed := false
 	for _, stmt := range f.Stmt {
 		rule, ok := ExprToRule(stmt, attrname)
-		if !ok || len(rule.Call.List) != 1 {
+		if !ok || len(rule.Call.List) != 1 || !isPlainArgument(rule.Call.List[0]) {
 			all = append(all, stmt)
 			continue
 		}
-- 
2.43.0


From d97c78a56a182670e94074c5725715c31c6023fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:55 +0000
Subject: [PATCH 83/94] fix: buildozer fix mergeLiteralLists dropped the
 comments of the second list

---
 edit/fix.go | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/edit/fix.go b/edit/fix.go
index 3d58f5c..04340fd 100644
--- a/edit/fix.go
+++ b/edit/fix.go
@@ -279,24 +279,46 @@ func sortGlob(_ *build.File, r *build.Rule, _ string) bool {
 	return fixed
 }
 
-func evaluateListConcatenation(expr build.Expr) build.Expr {
-	if _, ok := expr.(*build.ListExpr); ok {
-		return expr
+// isListConcatenation tells literal lists and concatenations of nothing but literal lists.
+func isListConcatenation(expr build.Expr) bool {
+	switch expr := expr.(type) {
+	case *build.ListExpr:
+		return true
+	case *build.BinaryExpr:
+		return expr.Op == "+" && isListConcatenation(expr.X) && isListConcatenation(expr.Y)
 	}
+	return false
+}
+
+func evaluateListConcatenation(expr build.Expr) build.Expr {
 	bin, ok := expr.(*build.BinaryExpr)
-	if !ok || bin.Op != "+" {
-		return expr
-	}
-	li1, ok1 := evaluateListConcatenation(bin.X).(*build.ListExpr)
-	li2, ok2 := evaluateListConcatenation(bin.Y).(*build.ListExpr)
-	if !ok1 || !ok2 {
+	if !ok || !isListConcatenation(expr) {
 		return expr
 	}
+	li1 := evaluateListConcatenation(bin.X).(*build.ListExpr)
+	li2 := evaluateListConcatenation(bin.Y).(*build.ListExpr)
 	res := *li1
-	res.List = append(li1.List, li2.List...)
+	res.List = append(append([]build.Expr{}, li1.List...), li2.List...)
+	res.Comments = joinComments(joinComments(bin.Comments, li1.Comments), li2.Comments)
+	// Comments at the end of the first list stay before the elements of the second one.
+	if len(li2.List) > 0 {
+		first := li2.List[0].Comment()
+		first.Before = append(append([]build.Comment{}, li1.End.Before...), first.Before...)
+		res.End.Before = li2.End.Before
+	} else {
+		res.End.Before = append(append([]build.Comment{}, li1.End.Before...), li2.End.Before...)
+	}
 	return &res
 }
 
+func joinComments(a, b build.Comments) build.Comments {
+	return build.Comments{
+		Before: append(append([]build.Comment{}, a.Before...), b.Before...),
+		Suffix: append(append([]build.Comment{}, b.Suffix...), a.Suffix...),
+		After:  append(append([]build.Comment{}, b.After...), a.After...),
+	}
+}
+
 // mergeLiteralLists evaluates the concatenation of two literal lists.
 // e.g. [1, 2] + [3, 4]  ->  [1, 2, 3, 4]
 func mergeLiteralLists(_ *build.File, r *build.Rule, _ string) bool {
-- 
2.43.0


From d2b42d0e5b88ef45bc753aad6914d6d65387713a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:06 +0000
Subject: [PATCH 84/94] fix: nested calls without a name got the implicit name
 of the file's unnamed rule

The only unnamed rule of a BUILD file has the name of its directory. File.Rule gave that name to all
calls without a name, for example to the glob call in "SRCS = glob(...)", so that RuleNamed found several
rules of that name and returned nil, and Name() was wrong for these calls.
---
 build/rule.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/build/rule.go b/build/rule.go
index b6e10bc..20f8cf6 100644
--- a/build/rule.go
+++ b/build/rule.go
@@ -36,7 +36,7 @@ func NewRule(call *CallExpr) *Rule {
 
 func (f *File) Rule(call *CallExpr) *Rule {
 	r := &Rule{call, ""}
-	if r.AttrString("name") == "" {
+	if r.AttrString("name") == "" && f.isUnnamedRule(call) {
 		r.ImplicitName = f.implicitRuleName()
 	}
 	return r
@@ -160,6 +160,20 @@ func (f *File) implicitRuleName() string {
 	return ""
 }
 
+// isUnnamedRule reports whether the call is a statement of the file that instantiates a rule, as opposed to
+// a call nested in another statement (such as "SRCS = glob(...)").
+func (f *File) isUnnamedRule(call *CallExpr) bool {
+	if NewRule(call).Kind() == "" {
+		return false
+	}
+	for _, stmt := range f.Stmt {
+		if stmt == Expr(call) {
+			return true
+		}
+	}
+	return false
+}
+
 // Kind returns the rule's kind (such as "go_library").
 // The kind of the rule may be given by a literal or it may be a sequence of dot expressions that
 // begins with a literal, if the call expression does not conform to either of these forms, an
-- 
2.43.0


From c917697f3d3f0935f2e825c50e874e843cf2880b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:38 +0000
Subject: [PATCH 85/94] fix: the ctx-actions fix made "sibling = *args" of
 *args

The two arguments of ctx.new_file were swapped even if one of them is *args or **kwargs, and the fixed
file had a syntax error.
---
 warn/warn_bazel_api.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index 5d0879d..92525fc 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -670,8 +670,15 @@ func ctxActionsWarning(f *build.File) []*LinterFinding {
 
 		switch dot.Name {
 		case "new_file":
-			if len(call.List) > 2 {
+			hasVarargs := false
+			for _, arg := range call.List {
+				if unary, ok := arg.(*build.UnaryExpr); ok && (unary.Op == "*" || unary.Op == "**") {
+					hasVarargs = true
+				}
+			}
+			if len(call.List) > 2 || len(call.List) == 2 && hasVarargs {
 				// Can't fix automatically because the new API doesn't support the 3 arguments signature
+				// and the order of *args and **kwargs is unknown.
 				findings = append(findings,
 					makeLinterFinding(dot, fmt.Sprintf(`"ctx.new_file" is deprecated in favor of "ctx.actions.declare_file".`)))
 				return
-- 
2.43.0


From fe9a93c895f633b63ac0a883c3d2ff2bcc863eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:33 +0000
Subject: [PATCH 86/94] fix: -tables with a table left out and -add_tables with
 entries for it panicked

Tables that aren't in the file given by -tables are nil, and entries were added to these nil maps.
---
 tables/tables.go | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/tables/tables.go b/tables/tables.go
index 7ff8b02..28d70ec 100644
--- a/tables/tables.go
+++ b/tables/tables.go
@@ -280,27 +280,24 @@ func OverrideTables(labelArg, denylist, listArg, sortableListArg, sortDenylist,
 
 // MergeTables allows a user of the build package to override the special-case rules. The user-provided tables are merged into the built-in tables.
 func MergeTables(labelArg, denylist, listArg, sortableListArg, sortDenylist, sortAllowlist map[string]bool, namePriority map[string]int, stripLabelLeadingSlashes, shortenAbsoluteLabelsToRelative bool) {
-	for k, v := range labelArg {
-		IsLabelArg[k] = v
-	}
-	for k, v := range denylist {
-		LabelDenylist[k] = v
-	}
-	for k, v := range listArg {
-		IsListArg[k] = v
-	}
-	for k, v := range sortableListArg {
-		IsSortableListArg[k] = v
-	}
-	for k, v := range sortDenylist {
-		SortableDenylist[k] = v
-	}
-	for k, v := range sortAllowlist {
-		SortableAllowlist[k] = v
-	}
-	for k, v := range namePriority {
-		NamePriority[k] = v
-	}
+	IsLabelArg = mergeTable(IsLabelArg, labelArg)
+	LabelDenylist = mergeTable(LabelDenylist, denylist)
+	IsListArg = mergeTable(IsListArg, listArg)
+	IsSortableListArg = mergeTable(IsSortableListArg, sortableListArg)
+	SortableDenylist = mergeTable(SortableDenylist, sortDenylist)
+	SortableAllowlist = mergeTable(SortableAllowlist, sortAllowlist)
+	NamePriority = mergeTable(NamePriority, namePriority)
 	StripLabelLeadingSlashes = stripLabelLeadingSlashes || StripLabelLeadingSlashes
 	ShortenAbsoluteLabelsToRelative = shortenAbsoluteLabelsToRelative || ShortenAbsoluteLabelsToRelative
 }
+
+// mergeTable adds entries to a table, which is nil if it was overridden by a table that isn't defined.
+func mergeTable[V any](table, entries map[string]V) map[string]V {
+	if table == nil {
+		table = make(map[string]V)
+	}
+	for k, v := range entries {
+		table[k] = v
+	}
+	return table
+}
-- 
2.43.0


From 8c22374ea36ca0ded7933c6ce672843b8f6c618c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:01 +0000
Subject: [PATCH 87/94] fix: unused_deps -extra_action_file didn't find any
 dependencies

The name of the params file was passed as the directory of the jars, with no params files at all, so
that the output file was always empty. Paths of jars are relative to the working directory of the action.
---
 unused_deps/unused_deps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index ef5d8f4..5454403 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -116,7 +116,7 @@ func writeUnusedDeps(jarPath, outputFileName string) {
 	depsPath := strings.Replace(jarPath, ".jar", ".jdeps", 1)
 	paramsPath := jarPath + "-2.params"
 	file, _ := os.Create(outputFileName)
-	for dep := range unusedDeps(depsPath, directDepParams(paramsPath)) {
+	for dep := range unusedDeps(depsPath, directDepParams("bazel-out", paramsPath)) {
 		file.WriteString(dep + "\n")
 	}
 }
-- 
2.43.0


From 45950a8ff8d4da172a3d98ba3945996af6e1f043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:01 +0000
Subject: [PATCH 88/94] fix: unused_deps panicked if a params file ends with
 --direct_dependencies without a newline

---
 unused_deps/unused_deps.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index 5454403..496879a 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -166,6 +166,9 @@ func directDepParams(blazeOutputPath string, paramsFileNames ...string) (depsByJ
 			continue
 		}
 		first := arg + len(directDepsFlag) + 1
+		if first > len(data) {
+			continue
+		}
 
 		scanner := bufio.NewScanner(bytes.NewReader(data[first:]))
 		for scanner.Scan() {
-- 
2.43.0


From 75bcb42f7faf6b1d3b859ec79a5416cf4e0eaded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:51 +0000
Subject: [PATCH 89/94] fix: a comment added to an attribute was lost if a
 command of the same invocation replaced the value

---
 edit/buildozer.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 9d51379..9f0c729 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -115,13 +115,13 @@ func cmdComment(opts *Options, env CmdEnvironment) (*build.File, error) {
 		env.Rule.Call.Comments.Before = comment
 	case 2: // Attach to an attribute
 		if attr := env.Rule.AttrDefn(env.Args[0]); attr != nil {
-			// The parser attaches comments to the assignment, replace those as well.
+			// The parser attaches comments to the assignment, so that they stay if the value is replaced.
 			if fullLine {
-				attr.Comments.Before = nil
-				attr.LHS.Comment().Before = comment
+				attr.Comments.Before = comment
+				attr.LHS.Comment().Before = nil
 			} else {
-				attr.Comments.Suffix = nil
-				attr.RHS.Comment().Suffix = comment
+				attr.Comments.Suffix = comment
+				attr.RHS.Comment().Suffix = nil
 			}
 		}
 	case 3: // Attach to a specific value in a list
-- 
2.43.0


From 3dea367b5439657a39dfb803e80de4f2b446394b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:21 +0000
Subject: [PATCH 90/94] fix: a variable assigned to in parentheses was not seen
 by the linter

---
 bzlenv/bzlenv.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bzlenv/bzlenv.go b/bzlenv/bzlenv.go
index 260d6d1..2cfc740 100644
--- a/bzlenv/bzlenv.go
+++ b/bzlenv/bzlenv.go
@@ -144,6 +144,8 @@ func CollectLValues(node build.Expr) []*build.Ident {
 	switch node := node.(type) {
 	case *build.Ident:
 		result = append(result, node)
+	case *build.ParenExpr:
+		result = append(result, CollectLValues(node.X)...)
 	case *build.TupleExpr:
 		for _, item := range node.List {
 			result = append(result, CollectLValues(item)...)
-- 
2.43.0


From ebb9d13854405e4e93b8756e7fabb5e85492f8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:28 +0000
Subject: [PATCH 91/94] fix: the linter took variables for what they had been
 before an assignment of unknown type

---
 warn/types.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/warn/types.go b/warn/types.go
index 07dbb6c..b631920 100644
--- a/warn/types.go
+++ b/warn/types.go
@@ -69,8 +69,23 @@ func DetectTypes(f *build.File) map[build.Expr]Type {
 	variables := make(map[int]Type)
 	result := make(map[build.Expr]Type)
 
+	// forget drops the types of the variables that are assigned to values of unknown types.
+	forget := func(lhs build.Expr, env *bzlenv.Environment) {
+		for _, ident := range bzlenv.CollectLValues(lhs) {
+			if binding := env.Get(ident.Name); binding != nil {
+				delete(variables, binding.ID)
+			}
+		}
+	}
+
 	var walk func(e *build.Expr, env *bzlenv.Environment)
 	walk = func(e *build.Expr, env *bzlenv.Environment) {
+		if loop, ok := (*e).(*build.ForStmt); ok {
+			// The iterable is evaluated before the variables are assigned to.
+			walk(&loop.X, env)
+			forget(loop.Vars, env)
+		}
+
 		// Postorder: determining types of subnodes may help with this node's type
 		walkOnce(*e, env, walk)
 
@@ -173,6 +188,9 @@ func DetectTypes(f *build.File) map[build.Expr]Type {
 		case *build.AssignExpr:
 			t, ok := result[node.RHS]
 			if !ok {
+				if node.Op == "=" {
+					forget(node.LHS, env)
+				}
 				return
 			}
 			if node.Op == "%=" && t != String {
@@ -181,6 +199,7 @@ func DetectTypes(f *build.File) map[build.Expr]Type {
 			}
 			ident, ok := (node.LHS).(*build.Ident)
 			if !ok {
+				forget(node.LHS, env)
 				return
 			}
 			binding := env.Get(ident.Name)
-- 
2.43.0


From 22e5329eb7c0ce6d36d32c9c7a2cb8cbff811004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:41 +0000
Subject: [PATCH 92/94] fix: moving all values of an attribute to itself
 deleted it

---
 edit/edit.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edit/edit.go b/edit/edit.go
index fdf3d32..b6c2cc7 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -890,6 +890,9 @@ func MoveAllListAttributeValues(rule *build.Rule, oldAttr, newAttr, pkg string,
 	if rule.Attr(oldAttr) == nil {
 		return fmt.Errorf("no attribute %s found in %s", oldAttr, rule.Name())
 	}
+	if oldAttr == newAttr {
+		return nil
+	}
 	if rule.Attr(newAttr) == nil {
 		RenameAttribute(rule, oldAttr, newAttr)
 		return nil
-- 
2.43.0


From 7b95178f0edaa08cd72ff1817bcf61497a54b625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:27 +0000
Subject: [PATCH 93/94] fix: the errors of commands were lost if the file
 couldn't be written

---
 edit/buildozer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 9f0c729..9c2d54c 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -1266,7 +1266,7 @@ func rewrite(opts *Options, commandsForFile commandsForFile) *rewriteResult {
 	f = RemoveEmptyUseRepoCalls(f)
 	ndata, err := buildifier.Buildify(opts, f)
 	if err != nil {
-		return &rewriteResult{file: name, errs: []error{fmt.Errorf("running buildifier: %v", err)}, records: records}
+		return &rewriteResult{file: name, errs: append(errs, fmt.Errorf("running buildifier: %v", err)), records: records}
 	}
 
 	if opts.Stdout || name == stdinPackageName {
@@ -1279,11 +1279,11 @@ func rewrite(opts *Options, commandsForFile commandsForFile) *rewriteResult {
 	}
 
 	if err := EditFile(fi, name); err != nil {
-		return &rewriteResult{file: name, errs: []error{err}, records: records}
+		return &rewriteResult{file: name, errs: append(errs, err), records: records}
 	}
 
 	if err := file.WriteFile(name, ndata); err != nil {
-		return &rewriteResult{file: name, errs: []error{err}, records: records}
+		return &rewriteResult{file: name, errs: append(errs, err), records: records}
 	}
 
 	return &rewriteResult{file: name, errs: errs, modified: true, records: records}
-- 
2.43.0


From 83f9b888146db78f2427f1a8f1e6bbc7eaa37f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:56 +0000
Subject: [PATCH 94/94] fix: unused_deps didn't find the jdeps file of a jar in
 a directory with .jar in its name

---
 unused_deps/unused_deps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index 496879a..9ca870b 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -113,7 +113,7 @@ func getJarPath(path string) (string, error) {
 
 // writeUnusedDeps writes the labels of unused direct deps, one per line, to outputFileName.
 func writeUnusedDeps(jarPath, outputFileName string) {
-	depsPath := strings.Replace(jarPath, ".jar", ".jdeps", 1)
+	depsPath := strings.TrimSuffix(jarPath, ".jar") + ".jdeps"
 	paramsPath := jarPath + "-2.params"
 	file, _ := os.Create(outputFileName)
 	for dep := range unusedDeps(depsPath, directDepParams("bazel-out", paramsPath)) {
-- 
2.43.0

