From e4e94c6410cb730eab3c4fd9db175bb68e21ff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:28 +0000
Subject: [PATCH 01/62] fix: restore line-column from an index of line
 beginnings instead of rescanning the source for every node

---
 span/source.go | 100 ++++++++++++++++++-------------------------------
 1 file changed, 37 insertions(+), 63 deletions(-)

diff --git a/span/source.go b/span/source.go
index a1d26a1..9440bb9 100644
--- a/span/source.go
+++ b/span/source.go
@@ -1,11 +1,10 @@
 package span
 
 import (
-	"regexp"
+	"sort"
+	"sync"
 	"unicode"
 	"unicode/utf8"
-
-	"github.com/hsiaosiyuan0/mole/util"
 )
 
 type Runes struct {
@@ -59,6 +58,12 @@ type Source struct {
 	// either the beginning of type params(`a<b>()`) or operator in
 	// binary expression(`a < b`)
 	ss []SourceState
+
+	// the offsets of the beginnings of lines, built on the first time the
+	// line-column is requested
+	lineOnce   sync.Once
+	lineBegins []int
+	ascii      bool
 }
 
 func NewSource(path string, code string) *Source {
@@ -229,7 +234,24 @@ func (s *Source) RngText(rng Range) string {
 	return s.code[rng.Lo:rng.Hi]
 }
 
-var linefeed = regexp.MustCompile("(?m)\r\n?|\n")
+// record the offsets where each line begins, it is done at most once for each source
+func (s *Source) indexLines() {
+	s.lineOnce.Do(func() {
+		s.lineBegins = append(s.lineBegins, 0)
+		s.ascii = true
+		for i := 0; i < len(s.code); i++ {
+			c := s.code[i]
+			if c == '\n' || c == '\r' {
+				if c == '\r' && i+1 < len(s.code) && s.code[i+1] == '\n' {
+					i += 1
+				}
+				s.lineBegins = append(s.lineBegins, i+1)
+			} else if c >= utf8.RuneSelf {
+				s.ascii = false
+			}
+		}
+	})
+}
 
 // line-column is useful for developer can figure out where the errors occur, however
 // it will pressure memory footprint if we directly store them in Node, this method is
@@ -237,71 +259,23 @@ var linefeed = regexp.MustCompile("(?m)\r\n?|\n")
 //
 // refer: https://github.com/acornjs/acorn/blob/ee1ce3766fe484926b84f29182f140d21e25fc6f/acorn/src/locutil.js#L31
 func (s *Source) LineCol(rng Range) (from, to Pos) {
-	start, end := rng.Lo, rng.Hi
-	buf := util.Str2bytes(s.code)
-
-	pos := &from
-	cur := 0
-	ofst := int(start)
-
-	line := 1
-	i := 0
-
-RESTORE:
-	for {
-		span := linefeed.FindIndex(buf[cur:])
-		if span != nil {
-			cur += span[1]
-
-			if cur <= ofst {
-				line += 1
-				continue
-			} else {
-				cur -= span[1]
-			}
-		}
-
-		pos.Line = uint32(line)
-		pos.Col = uint32(len([]rune(s.code[cur:ofst])))
-		break
-	}
-
-	if i != 1 {
-		i += 1
-		ofst = int(end)
-		pos = &to
-		goto RESTORE
-	}
-
-	return
+	return s.OfstLineCol(rng.Lo), s.OfstLineCol(rng.Hi)
 }
 
 func (s *Source) OfstLineCol(ofst uint32) (pos Pos) {
-	buf := util.Str2bytes(s.code)
+	s.indexLines()
 
-	cur := 0
 	end := int(ofst)
-
-	line := 1
-
-	for {
-		span := linefeed.FindIndex(buf[cur:])
-		if span != nil {
-
-			cur += span[1]
-
-			if cur <= end {
-				line += 1
-				continue
-			} else {
-				cur -= span[1]
-			}
-		}
-
-		pos.Line = uint32(line)
-		pos.Col = uint32(len([]rune(s.code[cur:end])))
-		return
+	line := sort.SearchInts(s.lineBegins, end+1)
+	begin := s.lineBegins[line-1]
+
+	pos.Line = uint32(line)
+	if s.ascii {
+		pos.Col = uint32(end - begin)
+	} else {
+		pos.Col = uint32(utf8.RuneCountInString(s.code[begin:end]))
 	}
+	return
 }
 
 type Range struct {
-- 
2.43.0


From ff0194ac7df3ae2e2e0f86ea69aeddc3042f82f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:47 +0000
Subject: [PATCH 02/62] fix: keep the precedence of the operator being parsed
 when extending its right operand

---
 ecma/parser/parser.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 259d5c8..9addf5b 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -5499,8 +5499,7 @@ func (p *Parser) binExpr(lhs Node, minPcd int, logic bool, nullish bool, notGT b
 		aheadOp := ahead.IsBin(notIn, ts)
 		kind = TokenKinds[aheadOp]
 		for aheadOp != T_ILLEGAL && (kind.Pcd > pcd || kind.Pcd == pcd && kind.RightAssoc) {
-			pcd = kind.Pcd
-			rhs, err = p.binExpr(rhs, pcd, logic, nullish, notGT, false)
+			rhs, err = p.binExpr(rhs, kind.Pcd, logic, nullish, notGT, false)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From ff9c4101d3629eadd0e64b038ecb8ffe9fb40e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:50 +0000
Subject: [PATCH 03/62] fix: compute the value of number literals as the spec
 says

decimals beginning with 0 such as 0.5 were evaluated to 0 and the values of
hex, octal and binary literals were saturated to 32 bits
---
 ecma/parser/astutil.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/ecma/parser/astutil.go b/ecma/parser/astutil.go
index 4e6757a..5066b98 100644
--- a/ecma/parser/astutil.go
+++ b/ecma/parser/astutil.go
@@ -58,25 +58,31 @@ func ParseBigint(t string) *big.Int {
 	return i
 }
 
+// the value of an integer literal of any length, rounded to the nearest float64
+func parseRadix(t string, base int) float64 {
+	i, ok := new(big.Int).SetString(t, base)
+	if !ok {
+		return 0
+	}
+	f, _ := new(big.Float).SetInt(i).Float64()
+	return f
+}
+
 func ParseFloat(t string) float64 {
 	t = strings.ReplaceAll(t, "_", "")
 
 	if strings.HasPrefix(t, "0x") || strings.HasPrefix(t, "0X") {
-		f, _ := strconv.ParseUint(t[2:], 16, 32)
-		return float64(f)
+		return parseRadix(t[2:], 16)
 	}
 	if strings.HasPrefix(t, "0o") || strings.HasPrefix(t, "0O") {
-		f, _ := strconv.ParseUint(t[2:], 8, 32)
-		return float64(f)
+		return parseRadix(t[2:], 8)
 	}
 	if strings.HasPrefix(t, "0b") || strings.HasPrefix(t, "0B") {
-		f, _ := strconv.ParseUint(t[2:], 2, 32)
-		return float64(f)
+		return parseRadix(t[2:], 2)
 	}
-	if strings.HasPrefix(t, "0") && len(t) > 1 {
-		t = strings.TrimLeft(t, "0")
-		f, _ := strconv.ParseUint(t, 8, 32)
-		return float64(f)
+	// the legacy octal like `017`, `018` and `0.17` are decimal
+	if strings.HasPrefix(t, "0") && len(t) > 1 && strings.Trim(t, "01234567") == "" {
+		return parseRadix(t, 8)
 	}
 	f, _ := strconv.ParseFloat(t, 64)
 	return f
-- 
2.43.0


From ac002d1b329804fbb3680ea7937222579f97163e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:57 +0000
Subject: [PATCH 04/62] fix: ranges are in bytes, do not mix them with the rune
 position

---
 ecma/parser/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index bcd7e56..ef20702 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -233,7 +233,7 @@ func (l *Lexer) Rng() span.Range {
 		rng.Lo = tok.rng.Lo
 		rng.Hi = rng.Lo
 	} else {
-		rng.Lo = l.src.Pos()
+		rng.Lo = l.src.Ofst()
 		rng.Hi = rng.Lo
 	}
 	return rng
@@ -243,7 +243,7 @@ func (l *Lexer) FinRng(rng span.Range) span.Range {
 	if l.state.prtVal != T_ILLEGAL {
 		rng.Hi = l.state.prtRng.Hi
 	} else {
-		rng.Hi = l.src.Pos()
+		rng.Hi = l.src.Ofst()
 	}
 	return rng
 }
-- 
2.43.0


From 2c1e8a4d5561adef808f8fec2f258e499ea397bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:00 +0000
Subject: [PATCH 05/62] fix: do not take string literals interpolated in
 template as its quasis

---
 ecma/estree/convert.go | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/ecma/estree/convert.go b/ecma/estree/convert.go
index 11284d3..8ba90b6 100644
--- a/ecma/estree/convert.go
+++ b/ecma/estree/convert.go
@@ -147,28 +147,9 @@ func tplLiteral(tplLoc span.Range, elems []parser.Node, ctx *ConvertCtx) *Templa
 	exprs := make([]Expression, 0)
 	cnt := len(elems)
 	for i, elem := range elems {
-		first := i == 0
 		last := i == cnt-1
-		if elem.Type() != parser.N_LIT_STR {
-			if first || last {
-				lc := locOfRng(tplLoc, ctx.Parser.Source(), ctx)
-				if first {
-					lc.End.Column = lc.Start.Column
-				} else {
-					lc.Start.Column = lc.End.Column
-				}
-				quasis = append(quasis, &TemplateElement{
-					Type:  "TemplateElement",
-					Start: int(tplLoc.Lo),
-					End:   int(tplLoc.Hi),
-					Loc:   lc,
-					Tail:  last,
-					Value: &TemplateElementValue{
-						Cooked: "",
-						Raw:    "",
-					},
-				})
-			}
+		// the strings and the expressions appear in turns and both of the ends are strings
+		if i%2 == 1 {
 			exprs = append(exprs, Convert(elem, ctx))
 		} else {
 			str := elem.(*parser.StrLit)
-- 
2.43.0


From 790e05a47825eb77a9adadd89d323ed4251b7b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:30 +0000
Subject: [PATCH 06/62] fix: keep the lexer modes of functions in pairs

await was not recognized in the async methods out of modules, the async mode
was kept after the function was finished, and the mode popped by generators
was not pushed by them; also read the operator of prefix update before its
token is overwritten in the ring-buffer
---
 ecma/parser/lexer.go  | 13 ++++++++++++-
 ecma/parser/parser.go | 16 +++++++++++++---
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index ef20702..21acf59 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -257,7 +257,10 @@ func (l *Lexer) PrevTokRng() span.Range {
 }
 
 func (l *Lexer) PushState() {
-	l.ss = append(l.ss, l.state)
+	state := l.state
+	// modes are modified in place so they should not be shared with the saved state
+	state.mode = append([]LexerMode{}, l.state.mode...)
+	l.ss = append(l.ss, state)
 }
 
 func (l *Lexer) DiscardState() {
@@ -309,6 +312,14 @@ func (l *Lexer) EraseMode(mode LexerModeKind) {
 	cur.kind &= ^mode
 }
 
+func (l *Lexer) TurnMode(mode LexerModeKind, on bool) {
+	if on {
+		l.AddMode(mode)
+	} else {
+		l.EraseMode(mode)
+	}
+}
+
 func (l *Lexer) IsMode(mode LexerModeKind) bool {
 	return l.CurMode().kind&mode > 0
 }
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 9addf5b..4a089cc 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2581,9 +2581,13 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	}
 
 	scope := p.symtab.EnterScope(true, false, true)
+	// whether `await` is keyword depends on the nearest function
+	asyncMode := p.lexer.IsMode(LM_ASYNC)
 	if async != nil {
 		scope.AddKind(SPK_ASYNC)
 		p.lexer.AddMode(LM_ASYNC)
+	} else if fn {
+		p.lexer.EraseMode(LM_ASYNC)
 	}
 	// 'yield' as function names
 	if generator {
@@ -2699,6 +2703,8 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 			return nil, p.errorTok(tok)
 		}
 	} else if async != nil {
+		p.lexer.TurnMode(LM_ASYNC, asyncMode)
+
 		// this branch means the input is callExpr like:
 		// `async ({a: b = c})` callExpr
 		// `async* ({a: b = c})` binExpr
@@ -2753,8 +2759,9 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	}
 
 	if generator {
-		p.lexer.PopMode()
+		p.lexer.EraseMode(LM_GENERATOR)
 	}
+	p.lexer.TurnMode(LM_ASYNC, asyncMode)
 
 	isStrict := scope.IsKind(SPK_STRICT)
 	directStrict := scope.IsKind(SPK_STRICT_DIR)
@@ -4361,7 +4368,7 @@ func (p *Parser) updateExpr(typArgs Node, typArgsLoc span.Range, notColon bool)
 	rng := p.rng()
 	tok := p.lexer.Peek()
 	if tok.value == T_INC || tok.value == T_DEC {
-		p.lexer.Next()
+		op := p.lexer.Next().value
 		arg, err := p.unaryExpr(nil, span.Range{}, notColon)
 		if err != nil {
 			return nil, err
@@ -4369,7 +4376,7 @@ func (p *Parser) updateExpr(typArgs Node, typArgsLoc span.Range, notColon bool)
 		if !p.isSimpleLVal(arg, true, false, true, false) {
 			return nil, p.errorAtLoc(arg.Range(), ERR_ASSIGN_TO_RVALUE)
 		}
-		ud := &UpdateExpr{N_EXPR_UPDATE, p.finRng(rng), tok.value, true, arg, span.Range{}}
+		ud := &UpdateExpr{N_EXPR_UPDATE, p.finRng(rng), op, true, arg, span.Range{}}
 		arg, err = p.tsTypAssert(ud, typArgs)
 		if err != nil {
 			return nil, err
@@ -6223,6 +6230,8 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 	}
 
 	fnLoc := p.rng()
+	asyncMode := p.lexer.IsMode(LM_ASYNC)
+	p.lexer.TurnMode(LM_ASYNC, async)
 	params, typParams, _, err := p.paramList(false, kind, true)
 	if err != nil {
 		return nil, err
@@ -6286,6 +6295,7 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 			return nil, err
 		}
 	}
+	p.lexer.TurnMode(LM_ASYNC, asyncMode)
 
 	isStrict := scope.IsKind(SPK_STRICT)
 	directStrict := scope.IsKind(SPK_STRICT_DIR)
-- 
2.43.0


From d1da8b501b94da898e024629a25eec2060257c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:00 +0000
Subject: [PATCH 07/62] fix: leave the operators around import calls and meta
 properties to their callers, and accept `]` and template ends after the block
 body of arrow functions

---
 ecma/parser/parser.go | 25 +++----------------------
 1 file changed, 3 insertions(+), 22 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 4a089cc..08fcc61 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4740,16 +4740,6 @@ func (p *Parser) importCall(tok *Token) (Node, error) {
 			return nil, p.errorAtLoc(prop.rng, ERR_META_PROP_CONTAINS_ESCAPE)
 		}
 
-		mp := &MetaProp{N_META_PROP, p.finRng(rng), meta, prop}
-		ahead = p.lexer.Peek()
-		av := ahead.value
-		if av == T_PAREN_L {
-			node, _, err := p.callExpr(mp, true, false, span.Range{}, false)
-			return node, err
-		} else if av == T_BRACKET_L || av == T_DOT || av == T_OPT_CHAIN {
-			node, _, err := p.memberExpr(mp, true, true, span.Range{})
-			return node, err
-		}
 		return &MetaProp{N_META_PROP, p.finRng(rng), meta, prop}, nil
 	}
 
@@ -4764,17 +4754,8 @@ func (p *Parser) importCall(tok *Token) (Node, error) {
 			return nil, err
 		}
 
-		call := &ImportCall{N_IMPORT_CALL, p.finRng(rng), src, span.Range{}}
-		ahead := p.lexer.Peek()
-		semi := ahead.value == T_SEMI
-		if semi || ahead.afterLineTerm {
-			if semi {
-				p.lexer.Next()
-			}
-			return call, nil
-		}
-
-		return p.condExpr(call, false, false, false)
+		// the rest parts such as the member accessing are left to the callers
+		return &ImportCall{N_IMPORT_CALL, p.finRng(rng), src, span.Range{}}, nil
 	}
 	return nil, p.errorTok(ahead)
 }
@@ -6437,7 +6418,7 @@ func (p *Parser) nameOfNode(node Node) string {
 func (p *Parser) isExprOpening(raise bool) (*Token, error) {
 	tok := p.lexer.PeekStmtBegin()
 	tv := tok.value
-	if raise && tv != T_SEMI && tv != T_BRACE_R && tv != T_COMMA && tv != T_PAREN_R && tv != T_COLON && !tok.afterLineTerm && tv != T_EOF {
+	if raise && tv != T_SEMI && tv != T_BRACE_R && tv != T_COMMA && tv != T_PAREN_R && tv != T_BRACKET_R && tv != T_COLON && tv != T_TPL_SPAN && tv != T_TPL_TAIL && !tok.afterLineTerm && tv != T_EOF {
 		errMsg := ERR_UNEXPECTED_TOKEN
 		if tok.value == T_ILLEGAL {
 			if msg, ok := tok.ext.(string); ok {
-- 
2.43.0


From c2f0ba04284fcbb08e41b7690a5968ad75e8c8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:04 +0000
Subject: [PATCH 08/62] fix: line terminators are permitted between let/const
 and the bindings

---
 ecma/parser/parser.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 08fcc61..25cc883 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -3124,7 +3124,7 @@ func (p *Parser) aheadIsVarDec(tok *Token) (bool, TokenValue) {
 			return false, T_ILLEGAL
 		}
 
-		if p.scope().IsKind(SPK_STRICT) {
+		if v == T_CONST || p.scope().IsKind(SPK_STRICT) {
 			return true, v
 		}
 
@@ -3133,9 +3133,12 @@ func (p *Parser) aheadIsVarDec(tok *Token) (bool, TokenValue) {
 		// - `let a`
 		ahead := p.lexer.PeekGrow()
 		av := ahead.value
-		if !ahead.afterLineTerm && (av == T_NAME ||
+		if ahead.afterLineTerm && p.scope().IsKind(SPK_INTERIM) || IsName(ahead, "in", false) {
+			return false, T_ILLEGAL
+		}
+		if av == T_NAME ||
 			(av > T_CTX_KEYWORD_BEGIN && av < T_CTX_KEYWORD_END) ||
-			av == T_BRACE_L || av == T_BRACKET_L) {
+			av == T_BRACE_L || av == T_BRACKET_L {
 			return true, v
 		}
 	}
-- 
2.43.0


From b06639b678144e47b7691c65778ffc5f73ad2a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:17 +0000
Subject: [PATCH 09/62] fix: numeric separators are permitted after the first
 digit, and regexps are permitted after unary operators and in super[]

---
 ecma/parser/lexer.go  | 13 +++++++------
 ecma/parser/parser.go |  2 +-
 ecma/parser/token.go  |  8 ++++----
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 21acf59..5cd0b65 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -1342,10 +1342,10 @@ func (l *Lexer) readNum() *Token {
 func (l *Lexer) readDecimalNum(tok *Token, first rune) *Token {
 	if first != '.' && first != '0' {
 		c := l.src.Peek()
-		if c != 'e' && c != 'E' && c != 'n' && IsIdStart(c) {
+		if c != 'e' && c != 'E' && c != 'n' && c != '_' && IsIdStart(c) {
 			return l.errTokOfst(nil, ERR_IDENT_AFTER_NUMBER, l.src.Ofst())
 		}
-		if err := l.readDecimalDigits(true); err != "" {
+		if err := l.readDecimalDigits(true, true); err != "" {
 			if err == ERR_NUM_SEP_END {
 				tok := l.newToken()
 				return l.errTokOfst(tok, err, l.src.Ofst()-1)
@@ -1361,7 +1361,7 @@ func (l *Lexer) readDecimalNum(tok *Token, first rune) *Token {
 			float = true
 		}
 		// read the fraction part
-		if err := l.readDecimalDigits(true); err != "" {
+		if err := l.readDecimalDigits(true, false); err != "" {
 			if err == ERR_NUM_SEP_END {
 				tok := l.newToken()
 				return l.errTokMsg(tok, err)
@@ -1403,10 +1403,11 @@ func (l *Lexer) readExpPart() string {
 	if l.src.AheadIsChOr('+', '-') {
 		l.src.Read()
 	}
-	return l.readDecimalDigits(false)
+	return l.readDecimalDigits(false, false)
 }
 
-func (l *Lexer) readDecimalDigits(opt bool) string {
+// `begun` indicates the first digit has been consumed
+func (l *Lexer) readDecimalDigits(opt, begun bool) string {
 	i := 0
 
 	var last rune
@@ -1416,7 +1417,7 @@ func (l *Lexer) readDecimalDigits(opt bool) string {
 			if c == '_' && l.feat&FEAT_NUM_SEP == 0 {
 				return ERR_INVALID_NUMBER
 			}
-			if i == 0 && c == '_' {
+			if i == 0 && !begun && c == '_' {
 				return ERR_NUM_SEP_BEGIN
 			} else {
 				if last == '_' && c == '_' {
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 25cc883..d5c43f6 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -5744,7 +5744,7 @@ func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 			return nil, p.errorAtLoc(loc, em)
 		}
 
-		if ahead.value != T_DOT && ahead.value != T_PAREN_L {
+		if ahead.value != T_DOT && ahead.value != T_BRACKET_L && ahead.value != T_PAREN_L {
 			return nil, p.errorTok(sup)
 		}
 		return &Super{N_SUPER, p.finRng(loc), span.Range{}, nil}, nil
diff --git a/ecma/parser/token.go b/ecma/parser/token.go
index 703feec..3a4243b 100644
--- a/ecma/parser/token.go
+++ b/ecma/parser/token.go
@@ -411,7 +411,7 @@ var TokenKinds = [T_TOKEN_DEF_END + 1]*TokenKind{
 	{T_CTX_KEYWORD_STRICT_END, "contextual keyword strict end", 0, false, false, false},
 	{T_AS, "as", 0, false, false, false},
 	{T_ASYNC, "async", 0, false, false, false},
-	{T_AWAIT, "await", 0, true, false, false},
+	{T_AWAIT, "await", 0, true, true, false},
 	{T_FROM, "from", 0, false, false, false},
 	{T_GET, "get", 0, false, false, false},
 	{T_META, "meta", 0, false, false, false},
@@ -478,9 +478,9 @@ var TokenKinds = [T_TOKEN_DEF_END + 1]*TokenKind{
 
 	// unary
 	{T_UNARY_OP_BEGIN, "unary operator being", 0, false, false, false},
-	{T_TYPE_OF, "typeof", 0, true, false, true},
-	{T_VOID, "void", 0, true, false, true},
-	{T_DELETE, "delete", 0, true, false, true},
+	{T_TYPE_OF, "typeof", 0, true, true, true},
+	{T_VOID, "void", 0, true, true, true},
+	{T_DELETE, "delete", 0, true, true, true},
 	{T_NOT, "!", 0, true, true, true},
 	{T_BIT_NOT, "~", 0, true, true, true},
 	{T_UNARY_OP_END, "unary operator end", 0, false, false, false},
-- 
2.43.0


From ef35be8c86a5614c186466c52bf36d1898105251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:01 +0000
Subject: [PATCH 10/62] fix: slashes after null, booleans and templates are
 divisions and those after template spans are regexps

---
 ecma/parser/lexer.go |  7 +++++++
 ecma/parser/token.go | 10 +++++-----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 5cd0b65..280f7e0 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -121,6 +121,8 @@ type LexerState struct {
 
 	pptVal TokenValue // prev peek
 
+	tplFin bool // whether the prev template span terminates its template
+
 	// always save loc of the previous whitespace being skipped
 	// by `skipSpace` in jsx mode
 	prevWs Token
@@ -522,6 +524,7 @@ func (l *Lexer) readTplSpan() *Token {
 		span.value = T_TPL_HEAD
 	}
 
+	l.state.tplFin = fin
 	if fin {
 		l.PopMode()
 		if head {
@@ -685,6 +688,10 @@ func (l *Lexer) aheadIsRegexp() bool {
 		return true
 	}
 
+	if prev == T_TPL_HEAD && l.state.tplFin {
+		return false
+	}
+
 	be := TokenKinds[prev].BeforeExpr
 	return be
 }
diff --git a/ecma/parser/token.go b/ecma/parser/token.go
index 3a4243b..a0d276b 100644
--- a/ecma/parser/token.go
+++ b/ecma/parser/token.go
@@ -351,15 +351,15 @@ var TokenKinds = [T_TOKEN_DEF_END + 1]*TokenKind{
 	{T_COMMENT, "comment", 0, false, false, false},
 
 	// literals
-	{T_NULL, "null", 0, false, true, true},
-	{T_TRUE, "true", 0, false, true, true},
-	{T_FALSE, "false", 0, false, true, true},
+	{T_NULL, "null", 0, false, false, true},
+	{T_TRUE, "true", 0, false, false, true},
+	{T_FALSE, "false", 0, false, false, true},
 	{T_NUM, "number", 0, false, false, true},
 	{T_STRING, "string", 0, false, false, true},
 
 	{T_TPL_HEAD, "template head", 0, false, true, true},
-	{T_TPL_SPAN, "template span", 0, false, false, false},
-	{T_TPL_TAIL, "template tail", 0, false, true, false},
+	{T_TPL_SPAN, "template span", 0, false, true, false},
+	{T_TPL_TAIL, "template tail", 0, false, false, false},
 
 	{T_NAME, "identifier", 0, false, false, true},
 	{T_NAME_PVT, "private identifier", 0, false, false, false},
-- 
2.43.0


From 6d7faa3f71ea9d2a16cfea5c501d2b409848bc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:43 +0000
Subject: [PATCH 11/62] fix: locate the property of dotted member access at its
 token and take its keywords as names

---
 ecma/parser/parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index d5c43f6..15c196d 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -5621,8 +5621,14 @@ func (p *Parser) memberExprPropSubscript(obj Node, opt bool) (Node, error) {
 }
 
 func (p *Parser) memberExprPropDot(obj Node, opt bool) (Node, error) {
-	loc := p.rng()
-	tok := p.lexer.Next()
+	// the keywords appear here are just names
+	tok := p.lexer.Peek()
+	if tok.IsKw() {
+		p.lexer.NextRevise(T_NAME)
+	} else {
+		p.lexer.Next()
+	}
+	loc := tok.rng
 	tv := tok.value
 	kw, ok := tok.CanBePropKey()
 
-- 
2.43.0


From d151fa46fb7ad07dd11c6b46f646ca43eed0dabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:00 +0000
Subject: [PATCH 12/62] fix: transforming arguments to parameters should not
 modify the arguments, and patterns with default values are legal in the
 parameters of arrow functions

---
 ecma/parser/parser.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 15c196d..9a0428f 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4973,8 +4973,21 @@ func (p *Parser) argToParam(arg Node, depth int, prop bool, destruct bool, inPar
 			}
 		}
 		return n, nil
+	case N_PAT_ARRAY:
+		n := arg.(*ArrPat)
+		for _, elem := range n.elems {
+			if elem == nil {
+				continue
+			}
+			if _, err := p.argToParam(elem, depth+1, false, destruct, inParen); err != nil {
+				return nil, err
+			}
+		}
+		return n, nil
 	case N_PROP:
-		n := arg.(*Prop)
+		// the transform is speculative, it should not touch the original node
+		cpy := *arg.(*Prop)
+		n := &cpy
 		var err error
 		if n.value != nil {
 			if n.value.Type() == N_EXPR_FN && depth > 0 {
@@ -5057,6 +5070,16 @@ func (p *Parser) argToParam(arg Node, depth int, prop bool, destruct bool, inPar
 			rhs: n.rhs,
 		}
 		return p, nil
+	case N_PAT_ASSIGN:
+		// like the `N_PAT_OBJ` above, recheck the pattern made for the destructing assignment
+		n := arg.(*AssignPat)
+		if _, err := p.argToParam(n.lhs, depth+1, false, destruct, inParen); err != nil {
+			return nil, err
+		}
+		if err := p.checkDefaultVal(n.rhs, destruct, destruct, false); err != nil {
+			return nil, err
+		}
+		return n, nil
 	case N_NAME:
 		id := arg.(*Ident)
 		name := arg.(*Ident).val
@@ -5071,7 +5094,8 @@ func (p *Parser) argToParam(arg Node, depth int, prop bool, destruct bool, inPar
 	case N_PAT_REST:
 		return arg, nil
 	case N_SPREAD:
-		n := arg.(*Spread)
+		cpy := *arg.(*Spread)
+		n := &cpy
 		if !n.tcLoc.Empty() {
 			return nil, p.errorAtLoc(n.tcLoc, ERR_REST_ELEM_MUST_LAST)
 		}
-- 
2.43.0


From 333d7ad252876809c1065402a038d445072c6017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:27 +0000
Subject: [PATCH 13/62] fix: locate tagged templates at their tags, accept them
 in new expressions, and mark only the direct call of `?.` as optional

---
 ecma/estree/convert.go | 10 ++++++----
 ecma/parser/parser.go  | 16 ++++++++++++++++
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/ecma/estree/convert.go b/ecma/estree/convert.go
index 8ba90b6..6631a00 100644
--- a/ecma/estree/convert.go
+++ b/ecma/estree/convert.go
@@ -1304,8 +1304,10 @@ func Convert(node parser.Node, ctx *ConvertCtx) Node {
 		if tpl.Tag() == nil {
 			return tplLiteral(tpl.Range(), tpl.Elems(), ctx)
 		}
-		locWithTag := tpl.Tag().Range()
-		locWithTag.Hi = tpl.Range().Hi
+		locWithTag := tpl.Range()
+		// the range of the template itself begins with its opening backquote
+		quasi := locWithTag
+		quasi.Lo = tpl.Elems()[0].Range().Lo - 1
 		tag := tpl.Tag()
 		if wt, ok := tag.(parser.NodeWithTypInfo); ok {
 			ti := wt.TypInfo()
@@ -1316,7 +1318,7 @@ func Convert(node parser.Node, ctx *ConvertCtx) Node {
 					End:            int(locWithTag.Hi),
 					Loc:            locOfRng(locWithTag, ctx.Parser.Source(), ctx),
 					Tag:            Convert(tpl.Tag(), ctx),
-					Quasi:          tplLiteral(tpl.Range(), tpl.Elems(), ctx),
+					Quasi:          tplLiteral(quasi, tpl.Elems(), ctx),
 					TypeParameters: typArgs(ti, ctx),
 				}
 			}
@@ -1327,7 +1329,7 @@ func Convert(node parser.Node, ctx *ConvertCtx) Node {
 			End:   int(locWithTag.Hi),
 			Loc:   locOfRng(locWithTag, ctx.Parser.Source(), ctx),
 			Tag:   Convert(tpl.Tag(), ctx),
-			Quasi: tplLiteral(tpl.Range(), tpl.Elems(), ctx),
+			Quasi: tplLiteral(quasi, tpl.Elems(), ctx),
 		}
 	case parser.N_STMT_IMPORT:
 		stmt := node.(*parser.ImportDec)
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 9a0428f..27ad105 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4554,6 +4554,10 @@ func (p *Parser) newExpr() (Node, error) {
 			if ret, _, err = p.memberExpr(ret, true, root, optLoc); err != nil {
 				return nil, err
 			}
+		} else if tv == T_TPL_HEAD {
+			if ret, err = p.tplExpr(ret, false); err != nil {
+				return nil, err
+			}
 		} else {
 			break
 		}
@@ -4694,6 +4698,8 @@ func (p *Parser) callExpr(callee Node, root bool, directOpt bool, opt span.Range
 				}
 			} else {
 				callee = &CallExpr{N_EXPR_CALL, p.finRng(rng), callee, args, directOpt, span.Range{}, ti}
+				// only the call which immediately follows the `?.` is optional
+				directOpt = false
 			}
 		} else if tv == T_BRACKET_L || tv == T_DOT || tv == T_OPT_CHAIN {
 			callee, fo, err = p.memberExpr(callee, true, root, firstOpt)
@@ -4777,6 +4783,9 @@ func (p *Parser) tplExpr(tag Node, ts bool) (Node, error) {
 		tok := p.lexer.Peek()
 		if rng.Empty() {
 			rng = tok.rng
+			if tag != nil {
+				rng.Lo = tag.Range().Lo
+			}
 		}
 		if tok.value >= T_TPL_HEAD && tok.value <= T_TPL_TAIL {
 			cooked := ""
@@ -5592,6 +5601,13 @@ func (p *Parser) memberExpr(obj Node, call bool, root bool, optLoc span.Range) (
 			if obj, err = p.memberExprPropDot(obj, false); err != nil {
 				return nil, span.Range{}, err
 			}
+		} else if tv == T_TPL_HEAD && !call {
+			if !optLoc.Empty() {
+				return nil, span.Range{}, p.errorAtLoc(tok.rng, ERR_OPT_EXPR_IN_TAG)
+			}
+			if obj, err = p.tplExpr(obj, false); err != nil {
+				return nil, span.Range{}, err
+			}
 		} else {
 			break
 		}
-- 
2.43.0


From ced568200e96cc4d46ef0e9b223d57486e48a285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:21 +0000
Subject: [PATCH 14/62] fix: `constructor` is special only for the instance
 methods of classes; accept `\0` in templates, members as rest targets,
 keywords in `export * as`, `await await`, `new async()`; bodies of async
 arrow functions are assignment expressions; holes in default values

---
 ecma/parser/lexer.go  |  7 +++++++
 ecma/parser/parser.go | 24 ++++++++++++++++++------
 ecma/parser/token.go  |  4 ++--
 3 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 280f7e0..800074d 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -1184,6 +1184,10 @@ func (l *Lexer) readStr() *Token {
 
 	if buf != nil {
 		tok.text = util.Bytes2str(&buf)
+		if len(buf) == 0 {
+			// nothing but LineContinuations, `tok.txt` should not be used as the value
+			tok.txt.Hi = tok.txt.Lo
+		}
 	}
 
 	tok.ext = &TokExtStr{open, legacyOctalEscapeSeq}
@@ -1257,6 +1261,9 @@ func (l *Lexer) readOctalEscapeSeq(first rune) (rune, string, int) {
 	zeroToThree := first >= '0' && first <= '3'
 	i := 1
 	if l.IsMode(LM_TEMPLATE) {
+		if first == '0' && !IsDecimalDigit(l.src.Peek()) {
+			return 0, "", i
+		}
 		return utf8.RuneError, ERR_TPL_LEGACY_OCTAL_ESCAPE_IN, 0
 	}
 	for {
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 27ad105..a5a5a0f 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -656,7 +656,7 @@ func (p *Parser) exportFrom(typ bool) ([]Node, bool, Node, error) {
 		if ahead.value == T_NAME && ahead.text == "as" && p.feat&FEAT_EXPORT_ALL_AS_NS != 0 {
 			p.lexer.Next()
 
-			id, err := p.ident(nil, false)
+			id, err := p.identWithKw(nil, false)
 			if err != nil {
 				return nil, false, nil, err
 			}
@@ -1234,7 +1234,7 @@ func (p *Parser) classBody(declare bool, hasSuper bool) (Node, error) {
 		if elem.Type() == N_METHOD {
 			m := elem.(*Method)
 			// `!m.Declare` is used to skip the constructor overloads
-			if !m.Declare() && p.isName(m.key, "constructor", false, true) {
+			if !m.Declare() && !m.static && !m.computed && p.isName(m.key, "constructor", false, true) {
 				if hasCtor {
 					return nil, p.errorAtLoc(m.key.Range(), ERR_CTOR_DUP)
 				}
@@ -1540,7 +1540,7 @@ func (p *Parser) classElem(inDeclare bool) (Node, error) {
 		kd := PK_INIT
 		if p.aheadIsArgList(ahead) {
 			kd = PK_METHOD
-			if name == "constructor" {
+			if name == "constructor" && !static {
 				kd = PK_CTOR
 			}
 
@@ -2686,7 +2686,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 				return nil, err
 			}
 		} else if expr || arrow {
-			if body, err = p.expr(); err != nil {
+			if body, err = p.assignExpr(true, false, false, false); err != nil {
 				return nil, err
 			}
 		} else if fn && !expr && tok.value == T_FUNC && tok.afterLineTerm && p.ts {
@@ -4893,6 +4893,9 @@ func (p *Parser) checkDefaultVal(val Node, yield bool, destruct bool, field bool
 	case N_LIT_ARR:
 		n := val.(*ArrLit)
 		for _, elem := range n.elems {
+			if elem == nil { // hole
+				continue
+			}
 			if err := p.checkDefaultVal(elem, yield, destruct, field); err != nil {
 				return err
 			}
@@ -5147,6 +5150,8 @@ func (p *Parser) argToParam(arg Node, depth int, prop bool, destruct bool, inPar
 				return nil, p.errorAtLoc(arg.Range(), ERR_REST_ARG_NOT_SIMPLE)
 			}
 			n.arg = arg
+		} else if destruct && at == N_EXPR_MEMBER {
+			// `[...a.b] = c` is legal
 		} else {
 			if !prop && p.feat&FEAT_BINDING_REST_ELEM_NESTED == 0 {
 				nested := UnParen(n.arg)
@@ -5636,7 +5641,14 @@ func (p *Parser) memberExpr(obj Node, call bool, root bool, optLoc span.Range) (
 }
 
 func (p *Parser) memberExprObj() (Node, error) {
-	obj, err := p.primaryExpr(false)
+	var obj Node
+	var err error
+	if tok := p.lexer.Peek(); IsName(tok, "async", true) && p.aheadIsArgList(p.lexer.Peek2nd()) {
+		// the args in `new async()` belong to the newExpr
+		obj, err = p.ident(nil, false)
+	} else {
+		obj, err = p.primaryExpr(false)
+	}
 	if err != nil {
 		return nil, err
 	}
@@ -6248,7 +6260,7 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 	}
 
 	ctor := false
-	if p.isName(key, "constructor", false, true) && compute.Empty() {
+	if inclass && !static && p.isName(key, "constructor", false, true) && compute.Empty() {
 		if kind == PK_GETTER || kind == PK_SETTER {
 			return nil, p.errorAtLoc(key.Range(), ERR_CTOR_CANNOT_HAVE_MODIFIER)
 		} else if async {
diff --git a/ecma/parser/token.go b/ecma/parser/token.go
index a0d276b..b2c4eaf 100644
--- a/ecma/parser/token.go
+++ b/ecma/parser/token.go
@@ -411,7 +411,7 @@ var TokenKinds = [T_TOKEN_DEF_END + 1]*TokenKind{
 	{T_CTX_KEYWORD_STRICT_END, "contextual keyword strict end", 0, false, false, false},
 	{T_AS, "as", 0, false, false, false},
 	{T_ASYNC, "async", 0, false, false, false},
-	{T_AWAIT, "await", 0, true, true, false},
+	{T_AWAIT, "await", 0, true, true, true},
 	{T_FROM, "from", 0, false, false, false},
 	{T_GET, "get", 0, false, false, false},
 	{T_META, "meta", 0, false, false, false},
@@ -429,7 +429,7 @@ var TokenKinds = [T_TOKEN_DEF_END + 1]*TokenKind{
 	{T_BRACKET_L, "[", 0, false, true, true},
 	{T_BRACKET_R, "]", 0, false, false, false},
 	{T_DOT, ".", 0, false, false, false},
-	{T_DOT_TRI, "...", 0, false, false, false},
+	{T_DOT_TRI, "...", 0, false, true, false},
 	{T_SEMI, ";", 0, false, true, false},
 	{T_COMMA, ",", 0, false, true, false},
 	{T_HOOK, "?", 0, false, true, false},
-- 
2.43.0


From e4f7a0919f885ac890e379c1b5840358332b2685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:20 +0000
Subject: [PATCH 15/62] fix: permit `in` within brackets in the head of for
 statements, regexps after `in`, `await` in computed keys of methods and in
 class heritage; do not swallow the empty statement after return

---
 ecma/parser/parser.go | 69 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 52 insertions(+), 17 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index a5a5a0f..4eba2de 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1129,7 +1129,7 @@ func (p *Parser) classDec(expr bool, canNameOmitted bool, declare bool, abstract
 		if err != nil {
 			return nil, err
 		}
-		if err := p.checkDefaultVal(super, false, false, false); err != nil {
+		if err := p.checkDefaultVal(super, true, true, false); err != nil {
 			return nil, err
 		}
 	}
@@ -1901,11 +1901,7 @@ func (p *Parser) retStmt() (Node, error) {
 	var arg Node
 	var err error
 
-	closed := false
-	if tok.value == T_SEMI {
-		p.lexer.Next()
-		closed = true
-	} else if tok.value != T_ILLEGAL &&
+	if tok.value != T_SEMI && tok.value != T_ILLEGAL &&
 		tok.value != T_BRACE_R &&
 		tok.value != T_PAREN_R &&
 		tok.value != T_BRACKET_R &&
@@ -1916,7 +1912,7 @@ func (p *Parser) retStmt() (Node, error) {
 		}
 	}
 
-	if err := p.advanceIfSemi(!closed); err != nil {
+	if err := p.advanceIfSemi(true); err != nil {
 		return nil, err
 	}
 
@@ -3637,6 +3633,7 @@ func (p *Parser) bindingPattern() (Node, error) {
 }
 
 func (p *Parser) patternObj() (Node, error) {
+	defer p.permitIn()()
 	rng := p.rng()
 	p.lexer.Next()
 
@@ -3785,7 +3782,15 @@ func (p *Parser) propName(allowNamePVT bool, maybeMethod bool, tsRough bool) (No
 	} else if tv == T_BRACKET_L {
 		computeLoc = tok.rng
 		scope.AddKind(SPK_PROP_NAME)
+		// the computed keys of class are evaluated in the context around that class
+		kind := scope.Kind
+		if scope.IsKind(SPK_CLASS) && scope.Up != nil {
+			scope.Kind |= scope.Up.Kind & (SPK_ASYNC | SPK_GENERATOR)
+		}
+		permitIn := p.permitIn()
 		name, err := p.assignExpr(true, false, false, false)
+		permitIn()
+		scope.Kind = kind
 		scope.EraseKind(SPK_PROP_NAME)
 		if err != nil {
 			return nil, span.Range{}, err
@@ -3839,6 +3844,7 @@ func (p *Parser) propName(allowNamePVT bool, maybeMethod bool, tsRough bool) (No
 }
 
 func (p *Parser) patternArr() (Node, error) {
+	defer p.permitIn()()
 	rng := p.rng()
 	p.lexer.Next()
 
@@ -4234,7 +4240,9 @@ func (p *Parser) condExpr(test Node, notGT bool, notHook bool, notColon bool) (N
 		return test, nil
 	}
 
+	permitIn := p.permitIn()
 	cons, err := p.assignExpr(true, notGT, false, true)
+	permitIn()
 	if err != nil {
 		return nil, err
 	}
@@ -4253,6 +4261,17 @@ func (p *Parser) condExpr(test Node, notGT bool, notHook bool, notColon bool) (N
 	return node, nil
 }
 
+// `in` is not permitted in the head of forStmt unless it's enclosed by brackets, the returned
+// func should be called to restore the prohibition after the closing bracket is processed
+func (p *Parser) permitIn() func() {
+	scope := p.scope()
+	if !scope.IsKind(SPK_NOT_IN) {
+		return func() {}
+	}
+	scope.EraseKind(SPK_NOT_IN)
+	return func() { scope.AddKind(SPK_NOT_IN) }
+}
+
 // https://tc39.es/ecma262/multipage/ecmascript-language-functions-and-classes.html#prod-AwaitExpression
 func (p *Parser) awaitExpr(tok *Token) (Node, error) {
 	rng := tok.rng
@@ -4729,6 +4748,7 @@ func (p *Parser) callExpr(callee Node, root bool, directOpt bool, opt span.Range
 
 // https://262.ecma-international.org/12.0/#prod-ImportCall
 func (p *Parser) importCall(tok *Token) (Node, error) {
+	defer p.permitIn()()
 	if tok == nil {
 		tok = p.lexer.Next()
 	}
@@ -4770,6 +4790,7 @@ func (p *Parser) importCall(tok *Token) (Node, error) {
 }
 
 func (p *Parser) tplExpr(tag Node, ts bool) (Node, error) {
+	defer p.permitIn()()
 
 	if tag != nil {
 		if tag.Type() == N_EXPR_CHAIN {
@@ -5364,6 +5385,7 @@ func (p *Parser) checkArgs(args []Node, spread bool, simplicity bool) error {
 }
 
 func (p *Parser) argList(check bool, incall bool, asyncLoc span.Range, noJsx bool) ([]Node, span.Range, Node, Node, error) {
+	defer p.permitIn()()
 	typArgs, err := p.tsTryTypArgs(asyncLoc, noJsx)
 	if err != nil {
 		return nil, span.Range{}, nil, nil, err
@@ -5512,7 +5534,12 @@ func (p *Parser) binExpr(lhs Node, minPcd int, logic bool, nullish bool, notGT b
 		if err = p.checkOp(ahead); err != nil {
 			return nil, err
 		}
-		opLoc := p.lexer.Next().rng
+		var opLoc span.Range
+		if op == T_IN {
+			opLoc = p.lexer.NextRevise(T_IN).rng
+		} else {
+			opLoc = p.lexer.Next().rng
+		}
 
 		var rhs Node
 		if op != T_TS_AS {
@@ -5661,6 +5688,7 @@ func (p *Parser) memberExprObj() (Node, error) {
 
 func (p *Parser) memberExprPropSubscript(obj Node, opt bool) (Node, error) {
 	p.lexer.Next()
+	defer p.permitIn()()
 	prop, err := p.expr()
 	if err != nil {
 		return nil, err
@@ -6019,6 +6047,7 @@ func UnParen(expr Node) Node {
 
 // https://tc39.es/ecma262/multipage/ecmascript-language-expressions.html#prod-ArrayLiteral
 func (p *Parser) arrLit() (Node, error) {
+	defer p.permitIn()()
 	loc := p.rng()
 	p.lexer.Next()
 
@@ -6094,6 +6123,7 @@ func (p *Parser) spread() (Node, error) {
 
 // https://tc39.es/ecma262/multipage/ecmascript-language-expressions.html#prod-ObjectLiteral
 func (p *Parser) objLit() (Node, error) {
+	defer p.permitIn()()
 	loc := p.rng()
 	p.lexer.Next()
 
@@ -6201,18 +6231,10 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 		rng = p.rng()
 	}
 
-	scope := p.symtab.EnterScope(true, false, true)
-	scope.AddKind(SPK_METHOD)
-	if kind == PK_CTOR && !static {
-		scope.AddKind(SPK_CTOR)
-	}
-	p.incRetsStk()
-
 	// depart `gen` and `async` here since below stmt is legal:
 	// `class a{ async *a() {} }`
 	if async {
 		p.lexer.Next()
-		scope.AddKind(SPK_ASYNC)
 
 		ahead := p.lexer.Peek()
 		gen = ahead.value == T_MUL
@@ -6221,7 +6243,6 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 		}
 	}
 	if gen {
-		scope.AddKind(SPK_GENERATOR)
 		p.lexer.Next()
 	}
 
@@ -6252,6 +6273,20 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 		}
 	}
 
+	// the key of the method belongs to the outer scope
+	scope := p.symtab.EnterScope(true, false, true)
+	scope.AddKind(SPK_METHOD)
+	if kind == PK_CTOR && !static {
+		scope.AddKind(SPK_CTOR)
+	}
+	if async {
+		scope.AddKind(SPK_ASYNC)
+	}
+	if gen {
+		scope.AddKind(SPK_GENERATOR)
+	}
+	p.incRetsStk()
+
 	if ti != nil {
 		ti.SetAccMod(accMode)
 		ti.SetAbstract(abstract)
-- 
2.43.0


From 0e0b074dbe39c7e7951074c525868e327d0691a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:13 +0000
Subject: [PATCH 16/62] fix: check the conflicts between declarations as the
 spec says, imports and exports are permitted only at the top level of modules

---
 ecma/parser/parser.go | 27 ++++++++++++----
 ecma/parser/symtab.go | 74 ++++++++++++++++++++++++++++++-------------
 2 files changed, 72 insertions(+), 29 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 4eba2de..7420624 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -441,10 +441,12 @@ func (p *Parser) stmt() (node Node, err error) {
 			// `for (morning;;) function a(){}` is illegal
 			if typ == N_STMT_FN && (scope.IsKind(SPK_STRICT) || scope.IsKind(SPK_LOOP_DIRECT)) {
 				return nil, p.errorAtLoc(node.Range(), ERR_FN_IN_SINGLE_STMT_CTX)
-			} else if typ == N_STMT_IMPORT || typ == N_STMT_EXPORT {
-				return nil, p.errorAtLoc(node.Range(), ERR_IMPORT_EXPORT_SHOULD_AT_TOP_LEVEL)
 			}
 		}
+		if (typ == N_STMT_IMPORT || typ == N_STMT_EXPORT) &&
+			(scope.IsKind(SPK_INTERIM) || !scope.IsKind(SPK_GLOBAL) && !scope.IsKind(SPK_TS_MODULE)) {
+			return nil, p.errorAtLoc(node.Range(), ERR_IMPORT_EXPORT_SHOULD_AT_TOP_LEVEL)
+		}
 	}
 
 	if checkHangingDec && len(p.hangingDecorators) != 0 {
@@ -809,6 +811,9 @@ func (p *Parser) importDec() (Node, error) {
 	if ahead.value == T_PAREN_L || ahead.value == T_DOT {
 		return p.exprStmt()
 	}
+	if p.feat&FEAT_IMPORT_DEC == 0 {
+		return nil, p.errorTok(importTok)
+	}
 
 	p.lexer.Next() // consume `import`
 
@@ -928,7 +933,7 @@ func (p *Parser) importDec() (Node, error) {
 			ref.Dec = node
 			ref.BindKind = BK_CONST
 			ref.Typ = RDT_IMPORT
-			if p.addLocalBinding(p.Symtab().Scopes[0], ref, true, ref.Id.val); err != nil {
+			if err := p.addLocalBinding(p.Symtab().Scopes[0], ref, true, ref.Id.val); err != nil {
 				return nil, err
 			}
 		}
@@ -1104,12 +1109,16 @@ func (p *Parser) classDec(expr bool, canNameOmitted bool, declare bool, abstract
 			ti.SetTypParams(typParams)
 		}
 
-		if id != nil {
+		// name of the class expression is not visible outside of that class
+		if id != nil && !expr {
 			ref := NewRef()
 			ref.Id = id.(*Ident)
 			ref.Dec = dec
 			ref.BindKind = BK_CONST
-			ref.Typ = RDT_CLASS | RDT_TYPE
+			ref.Typ = RDT_CLASS
+			if p.ts {
+				ref.Typ |= RDT_TYPE
+			}
 			if err := p.addLocalBinding(ps, ref, true, ref.Id.val); err != nil {
 				return nil, err
 			}
@@ -1828,6 +1837,7 @@ func (p *Parser) tryStmt() (Node, error) {
 				ref := NewRef()
 				ref.Id = id
 				ref.BindKind = BK_LET
+				ref.simpleCatchParam = param.Type() == N_NAME
 				if err := p.addLocalBinding(nil, ref, true, id.val); err != nil {
 					return nil, err
 				}
@@ -2561,13 +2571,16 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 			fnRef.Id = id.(*Ident)
 			fnRef.BindKind = BK_VAR
 			fnRef.Typ = RDT_FN
-			if ps.IsKind(SPK_STRICT) {
+			fnRef.plainFn = async == nil && !generator
+			// functions are declared like `var` at the top of scripts and functions,
+			// they are lexical in blocks and at the top of modules
+			if !ps.IsKind(SPK_FUNC) && !(ps.IsKind(SPK_GLOBAL) && p.feat&FEAT_MODULE == 0) {
 				fnRef.BindKind = BK_LET
 			}
 			if ps.IsKind(SPK_TS_DECLARE) {
 				fnRef.Typ = fnRef.Typ.On(RDT_TYPE)
 			}
-			if err := p.addLocalBinding(ps, fnRef, ps.IsKind(SPK_STRICT), fnRef.Id.val); err != nil {
+			if err := p.addLocalBinding(ps, fnRef, true, fnRef.Id.val); err != nil {
 				return nil, err
 			}
 		}
diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index 050e26f..325fea2 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -111,6 +111,16 @@ type Ref struct {
 
 	// ref with bind kind not none means it's a variable binding
 	BindKind BindKind
+
+	// `e` in `try {} catch (e) {}`
+	simpleCatchParam bool
+
+	// function which is neither async nor generator
+	plainFn bool
+}
+
+func (r *Ref) isLexical() bool {
+	return r.BindKind == BK_LET || r.BindKind == BK_CONST
 }
 
 func (r *Ref) RetainBy(ref *Ref) {
@@ -144,6 +154,9 @@ type Scope struct {
 	// `IsBind` of their children are `true` means `rebind`
 	Refs map[string]*Ref
 
+	// names declared by the `var` in this scope or in the blocks nested in it
+	vars map[string]*Ref
+
 	// exports declared at this scope
 	Exports []*ExportDec
 }
@@ -157,6 +170,7 @@ func NewScope() *Scope {
 		Labels:       make([]Node, 0),
 
 		Refs: make(map[string]*Ref),
+		vars: make(map[string]*Ref),
 	}
 	return scope
 }
@@ -243,38 +257,54 @@ func (s *Scope) UpperScope(kinds *[]ScopeKind) *Scope {
 	return nil
 }
 
+// adds the binding `ref` to this scope, returns false if `checkDup` is turned on and
+// the name is already taken by a declaration which conflicts with `ref`
 func (s *Scope) AddLocal(ref *Ref, name string, checkDup bool) bool {
-	cur := s
-	local := s.Local(name)
-
-	// `try {} catch (foo) { let foo; }` is illegal
-	if cur.IsKind(SPK_CATCH) && local != nil {
-		return false
-	}
-
-	// register binding to parent fn scope if it's `BK_VAR`
 	if ref.BindKind == BK_VAR {
+		// the declaration by `var` takes effect in the parent fn scope, it should not
+		// conflict with the lexical ones in any of the scopes it passes through
 		ps := s.UpperFn()
-		localInPs := ps.Refs[name]
-
-		if checkDup && localInPs != nil && localInPs.BindKind != BK_PARAM &&
-			((localInPs.BindKind != BK_VAR && localInPs.Typ != RDT_FN) ||
-				(localInPs.Scope.Id == 0 && localInPs.Typ == RDT_FN)) {
-			return CheckRefDup(localInPs, ref)
+		for scope := s; scope != nil; scope = scope.Up {
+			local := scope.Local(name)
+			if checkDup && local != nil && local.isLexical() {
+				// `try {} catch (foo) { var foo; }` is legal
+				if !local.simpleCatchParam && !CheckRefDup(local, ref) {
+					return false
+				}
+			}
+			if scope == ps {
+				break
+			}
+		}
+		for scope := s; scope != nil; scope = scope.Up {
+			scope.vars[name] = ref
+			if scope == ps {
+				break
+			}
 		}
-		ps.Refs[name] = ref
-	}
 
-	if !checkDup {
 		ref.Scope = s
+		if s != ps {
+			ps.Refs[name] = ref
+			// the catch clause is evaluated with its param
+			if local := s.Local(name); local != nil && local.simpleCatchParam {
+				return true
+			}
+		}
 		s.Refs[name] = ref
 		return true
 	}
 
-	bindKind := ref.BindKind
-	if local != nil && ((local.BindKind != BK_VAR && local.BindKind != BK_PARAM && local.Typ != RDT_FN && local.Scope.Id != 0) ||
-		bindKind != BK_VAR) {
-		return CheckRefDup(local, ref)
+	if checkDup {
+		local := s.Local(name)
+		// plain functions in the block can be duplicated in sloppy mode
+		fnDup := local != nil && !s.IsKind(SPK_STRICT) && local.plainFn && ref.plainFn
+		if local != nil && !fnDup && !CheckRefDup(local, ref) {
+			return false
+		}
+		if v := s.vars[name]; v != nil && v != local && !CheckRefDup(v, ref) {
+			return false
+		}
 	}
 
 	ref.Scope = s
-- 
2.43.0


From 412b455de79a8f8fcf8cadb4e8ad02ef7129ef0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:06 +0000
Subject: [PATCH 17/62] fix: leave the scope entered for calls of `async`, keep
 the ids of scopes in the order of walk, do not overlay scopes with temporary
 ones; regexps after if and try statements; constructors followed by line
 terminators

---
 ecma/parser/parser.go | 71 +++++++++++++++++++++++------------------
 ecma/parser/symtab.go | 74 +++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 112 insertions(+), 33 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 7420624..8d3251e 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -394,7 +394,12 @@ func (p *Parser) stmt() (node Node, err error) {
 		if tok.ContainsEscape() {
 			return nil, p.errorAt(tok.value, tok.rng, ERR_ESCAPE_IN_KEYWORD)
 		}
-		node, err = p.fnDec(false, tok, false)
+		if p.lexer.Peek2nd().value == T_FUNC {
+			node, err = p.fnDec(false, tok, false)
+		} else {
+			// async arrow function or the call of the function named `async`
+			node, err = p.exprStmt()
+		}
 	} else if p.aheadIsLabel(tok) {
 		node, err = p.labelStmt()
 	} else if p.aheadIsTsTypDec(tok, false) {
@@ -1667,7 +1672,20 @@ func (p *Parser) field(key Node, begin, static span.Range, accMod ACC_MOD, begin
 		if !static.Empty() {
 			rng = static
 		}
-		return p.method(rng, key, accMod, compute, false, PK_METHOD, false, false, true, true, !static.Empty(), beginLoc, !declare.Empty(), !abstract.Empty(), !override.Empty(), ti)
+		kd := PK_METHOD
+		if compute.Empty() && static.Empty() {
+			switch k := key.(type) {
+			case *Ident:
+				if k.val == "constructor" && !k.pvt {
+					kd = PK_CTOR
+				}
+			case *StrLit:
+				if k.val == "constructor" {
+					kd = PK_CTOR
+				}
+			}
+		}
+		return p.method(rng, key, accMod, compute, false, kd, false, false, true, true, !static.Empty(), beginLoc, !declare.Empty(), !abstract.Empty(), !override.Empty(), ti)
 	}
 	p.advanceIfSemi(false)
 
@@ -1856,7 +1874,7 @@ func (p *Parser) tryStmt() (Node, error) {
 	}
 
 	var fin Node
-	if p.lexer.Peek().value == T_FINALLY {
+	if p.lexer.PeekStmtBegin().value == T_FINALLY {
 		p.lexer.Next()
 		fin, err = p.blockStmt(true, SPK_NONE)
 		if err != nil {
@@ -2181,7 +2199,7 @@ func (p *Parser) ifStmt() (Node, error) {
 	}
 
 	var alt Node
-	if p.lexer.Peek().value == T_ELSE {
+	if p.lexer.PeekStmtBegin().value == T_ELSE {
 		p.lexer.Next()
 		tok := p.lexer.PeekStmtBegin()
 
@@ -2628,10 +2646,12 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 			return nil, err
 		}
 		if typArgs != nil && typArgs.Type() != N_TS_PARAM_INST {
-			if err := p.advanceIfSemi(true); err != nil {
-				return nil, err
-			}
-			return &ExprStmt{N_STMT_EXPR, p.finRng(rng), typArgs, false}, nil
+			// `async < a, b`
+			p.lexer.TurnMode(LM_ASYNC, asyncMode)
+			p.symtab.LeaveScope()
+			p.symtab.dropScope(scope)
+			p.decRetsStk()
+			return typArgs, nil
 		}
 	}
 
@@ -2667,7 +2687,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	var params []Node
 	var paramNames []Node
 	var firstComplicated span.Range
-	if fn || tok.value == T_BRACE_L || arrow {
+	if fn || arrow {
 		if fn {
 			params = args
 		} else {
@@ -2713,6 +2733,9 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 		}
 	} else if async != nil {
 		p.lexer.TurnMode(LM_ASYNC, asyncMode)
+		p.symtab.LeaveScope()
+		p.symtab.dropScope(scope)
+		p.decRetsStk()
 
 		// this branch means the input is callExpr like:
 		// `async ({a: b = c})` callExpr
@@ -2732,7 +2755,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 			}
 			exp = &BinExpr{N_EXPR_BIN, p.finRng(rng), T_MUL, genLoc, lhs, rhs, span.Range{}}
 		} else {
-			if err := p.checkArgs(args, false, true); err != nil {
+			if err := p.checkArgs(args, true, true); err != nil {
 				return nil, err
 			}
 			ti := p.newTypInfo(N_EXPR_CALL)
@@ -2747,21 +2770,6 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 			exp = &CallExpr{N_EXPR_CALL, p.finRng(rng), lhs, args, false, span.Range{}, ti}
 		}
 
-		if !expr {
-			binExpr, err := p.binExpr(exp, 0, false, false, false, false)
-			if err != nil {
-				return nil, err
-			}
-
-			seq, err := p.seqExpr(binExpr, false)
-			if err != nil {
-				return nil, err
-			}
-			if err = p.advanceIfSemi(true); err != nil {
-				return nil, err
-			}
-			return &ExprStmt{N_STMT_EXPR, p.finRng(rng), seq, false}, nil
-		}
 		return exp, nil
 	} else {
 		return nil, p.errorTok(tok)
@@ -3819,7 +3827,7 @@ func (p *Parser) propName(allowNamePVT bool, maybeMethod bool, tsRough bool) (No
 		}
 		// stmt `let { let } = {}` will raise error `let is disallowed as a lexically bound name` in sloppy mode
 		if !scope.IsKind(SPK_STRICT) && scope.IsKind(SPK_LEXICAL_DEC) {
-			if !tok.ContainsEscape() && (keyName == "let" || keyName == "const") {
+			if !tok.ContainsEscape() && (keyName == "let" || keyName == "const") && p.lexer.Peek().value != T_COLON {
 				return nil, span.Range{}, p.errorAtLoc(rng, fmt.Sprintf(ERR_TPL_FORBIDDEN_LEXICAL_NAME, keyName))
 			}
 		}
@@ -4120,7 +4128,7 @@ func (p *Parser) assignExpr(checkLhs bool, notGT bool, notHook bool, notColon bo
 
 	tok := p.lexer.Peek()
 	if lhs.Type() == N_NAME && tok.value == T_ARROW && !tok.afterLineTerm {
-		fn, err := p.arrowFn(rng, []Node{lhs}, nil, nil)
+		fn, err := p.arrowFn(rng, p.symtab.scopeIdSeed, []Node{lhs}, nil, nil)
 		if err != nil {
 			return nil, err
 		}
@@ -5036,7 +5044,7 @@ func (p *Parser) argToParam(arg Node, depth int, prop bool, destruct bool, inPar
 		n := &cpy
 		var err error
 		if n.value != nil {
-			if n.value.Type() == N_EXPR_FN && depth > 0 {
+			if n.value.Type() == N_EXPR_FN && depth > 0 && !n.assign {
 				return nil, p.errorAtLoc(arg.Range(), ERR_OBJ_PATTERN_CANNOT_FN)
 			}
 
@@ -5875,7 +5883,8 @@ func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 	return nil, p.errorTok(tok)
 }
 
-func (p *Parser) arrowFn(rng span.Range, args []Node, params []Node, ti *TypInfo) (Node, error) {
+// `scopeBase` is the latest scope id before the parameters
+func (p *Parser) arrowFn(rng span.Range, scopeBase int, args []Node, params []Node, ti *TypInfo) (Node, error) {
 	var err error
 	if params == nil {
 		params, err = p.argsToParams(args)
@@ -5887,6 +5896,7 @@ func (p *Parser) arrowFn(rng span.Range, args []Node, params []Node, ti *TypInfo
 	arrowLoc := p.lexer.Next().rng
 	ps := p.scope()
 	scope := p.symtab.EnterScope(true, true, true)
+	p.symtab.adoptScopes(scope, scopeBase)
 	p.incRetsStk()
 
 	paramNames, firstComplicated, err := p.collectNames(params)
@@ -5959,6 +5969,7 @@ func (p *Parser) parenExpr(typArgs Node, notColon bool) (Node, error) {
 	// for dealing with above situations, enter a new scope and flag it as paren
 	// to let the nested states can tell if they are in parenExpr to judge whether
 	// to raise the syntax-error exception or not
+	scopeBase := p.symtab.scopeIdSeed
 	scope := p.symtab.EnterScope(false, false, false)
 	scope.AddKind(SPK_PAREN)
 	p.checkName = false
@@ -5997,7 +6008,7 @@ func (p *Parser) parenExpr(typArgs Node, notColon bool) (Node, error) {
 		if paramsErr != nil {
 			return nil, paramsErr
 		}
-		return p.arrowFn(rng, nil, params, ti)
+		return p.arrowFn(rng, scopeBase, nil, params, ti)
 	}
 
 	// `():number` is illegal
diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index 325fea2..a4aa2db 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -144,6 +144,9 @@ type Scope struct {
 	Up   *Scope
 	Down []*Scope
 
+	// whether the scope is temporary, see `SymTab.EnterScope`
+	tmp bool
+
 	// label should be unique in its label chain
 	uniqueLabels map[string]Node
 	// labels can be redefined in their defined scope
@@ -477,6 +480,25 @@ func IsOneOfNs(r1, r2 *Ref) bool {
 
 func (s *Scope) DelLocal(ref *Ref) {
 	s.Refs[ref.Id.val] = nil
+	for scope := s; scope != nil; scope = scope.Up {
+		if scope.vars[ref.Id.val] == ref {
+			delete(scope.vars, ref.Id.val)
+		}
+	}
+}
+
+// replaces the scope with its children in its parent
+func (s *Scope) giveChildren() {
+	up := s.Up
+	for i, c := range up.Down {
+		if c == s {
+			up.Down = append(append(up.Down[:i:i], s.Down...), up.Down[i+1:]...)
+			break
+		}
+	}
+	for _, c := range s.Down {
+		c.Up = up
+	}
 }
 
 func (s *Scope) BindingOf(name string) *Ref {
@@ -610,7 +632,11 @@ func (s *SymTab) EnterScope(fn bool, arrow bool, settled bool) *Scope {
 		}
 	}
 
-	s.Scopes[scope.Id] = scope
+	// the temporary scope is dropped as soon as it's left
+	if settled {
+		s.Scopes[scope.Id] = scope
+	}
+	scope.tmp = !settled
 
 	scope.Up = s.Cur
 	s.Cur.Down = append(s.Cur.Down, scope)
@@ -621,12 +647,54 @@ func (s *SymTab) EnterScope(fn bool, arrow bool, settled bool) *Scope {
 
 func (s *SymTab) LeaveScope() *Scope {
 	cur := s.Cur
-	// prevent the scope being overlaid by its tmp child
-	s.Scopes[s.Cur.Up.Id] = s.Cur.Up
 	s.Cur = s.Cur.Up
+	if cur.tmp {
+		cur.giveChildren()
+	}
 	return cur
 }
 
+// drops the scope which is entered speculatively and turns out to be nonexistent,
+// its children are given to its parent
+func (s *SymTab) dropScope(scope *Scope) {
+	scope.giveChildren()
+	for id := scope.Id; id < s.scopeIdSeed; id++ {
+		c := s.Scopes[id+1]
+		c.Id = id
+		s.Scopes[id] = c
+	}
+	delete(s.Scopes, s.scopeIdSeed)
+	s.scopeIdSeed -= 1
+}
+
+// makes the scope just entered to be the parent of the settled scopes whose ids are
+// above the `base`, those scopes come from the parameters of arrow functions, they are
+// entered before their function is recognized
+func (s *SymTab) adoptScopes(scope *Scope, base int) {
+	if scope.Id == base+1 {
+		return
+	}
+	for id := scope.Id; id > base+1; id-- {
+		c := s.Scopes[id-1]
+		c.Id = id
+		s.Scopes[id] = c
+	}
+	scope.Id = base + 1
+	s.Scopes[scope.Id] = scope
+
+	up := scope.Up
+	kept := make([]*Scope, 0, len(up.Down))
+	for _, c := range up.Down {
+		if c != scope && c.Id > base {
+			c.Up = scope
+			scope.Down = append(scope.Down, c)
+		} else {
+			kept = append(kept, c)
+		}
+	}
+	up.Down = kept
+}
+
 func (s *SymTab) HasExternal(name string) bool {
 	for _, ext := range s.Externals {
 		if ext == name {
-- 
2.43.0


From 3ba106ed826153bf890c5978330c310986fda96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:51 +0000
Subject: [PATCH 18/62] fix: line terminators between comments, U+FEFF is white
 space and U+0085 is not

---
 ecma/parser/lexer.go | 7 ++++---
 span/source.go       | 7 ++++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 800074d..d05c066 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -421,11 +421,11 @@ func (l *Lexer) readTokWithComment() *Token {
 func (l *Lexer) lexTok() *Token {
 	prt := T_ILLEGAL
 	prtAtm := false
-	prtExt := false
+	nl := false // whether there is line terminator in the comments
 	for {
 		tok := l.readTokWithComment()
 		if tok.value != T_COMMENT {
-			if !tok.afterLineTerm && prt == T_COMMENT && prtExt == true {
+			if nl {
 				tok.afterLineTerm = true
 			}
 			return tok
@@ -437,7 +437,8 @@ func (l *Lexer) lexTok() *Token {
 		}
 		prt = tok.value
 		prtAtm = tok.afterLineTerm
-		prtExt = tok.ext.(bool) // indicates whether the comment is multiline or not
+		// `tok.ext` indicates whether the comment is multiline or not
+		nl = nl || tok.afterLineTerm || tok.ext.(bool)
 	}
 }
 
diff --git a/span/source.go b/span/source.go
index 9440bb9..cb7ee6a 100644
--- a/span/source.go
+++ b/span/source.go
@@ -206,11 +206,16 @@ func (s *Source) OpenRange(rng *Range) {
 	rng.Lo = s.Ofst()
 }
 
+// https://tc39.es/ecma262/multipage/ecmascript-language-lexical-grammar.html#sec-white-space
+func isSpace(c rune) bool {
+	return c == 0xfeff || c != 0x85 && unicode.IsSpace(c)
+}
+
 func (s *Source) SkipSpace() *Source {
 	s.state.metLineTerm = false
 	for {
 		c := s.Peek()
-		if !unicode.IsSpace(c) || c == EOF {
+		if !isSpace(c) || c == EOF {
 			break
 		}
 		if IsLineTerminator(c) {
-- 
2.43.0


From 3144197fd2673d707104b1a5dc137f81b961f2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:41 +0000
Subject: [PATCH 19/62] fix: blocks nested in try are not breakable

---
 ecma/parser/symtab.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index a4aa2db..7349492 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -588,7 +588,7 @@ func (s *SymTab) EnterScope(fn bool, arrow bool, settled bool) *Scope {
 			scope.Kind |= SPK_SWITCH_INDIRECT
 		}
 		if s.Cur.IsKind(SPK_TRY) || s.Cur.IsKind(SPK_TRY_INDIRECT) {
-			scope.Kind |= SPK_SWITCH_INDIRECT
+			scope.Kind |= SPK_TRY_INDIRECT
 		}
 		if s.Cur.IsKind(SPK_FORMAL_PARAMS) {
 			scope.Kind |= SPK_FORMAL_PARAMS
-- 
2.43.0


From 003b72d81f5fcef58111c0a94a622faad21275fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:25 +0000
Subject: [PATCH 20/62] fix: reserved words `in` and `const` are not
 identifiers, `async` as operand of `in` and as label

---
 ecma/parser/parser.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 8d3251e..1808485 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1954,7 +1954,7 @@ func (p *Parser) retStmt() (Node, error) {
 
 func (p *Parser) aheadIsLabel(tok *Token) bool {
 	if tok.value == T_NAME {
-		ahead := p.lexer.PeekGrow()
+		ahead := p.lexer.Peek2nd()
 		return ahead.value == T_COLON
 	}
 	return false
@@ -2525,7 +2525,11 @@ func (p *Parser) aheadIsAsync(tok *Token, prop bool, pvt bool) bool {
 			return true
 		}
 		if ahead.value == T_NAME {
-			if p.scope().IsKind(SPK_NOT_IN) && (IsName(ahead, "in", false) || IsName(ahead, "of", false)) {
+			// `async in a`
+			if IsName(ahead, "in", false) {
+				return false
+			}
+			if p.scope().IsKind(SPK_NOT_IN) && IsName(ahead, "of", false) {
 				return false
 			}
 			return true
@@ -3311,6 +3315,11 @@ func (p *Parser) isProhibitedName(scope *Scope, name string, withStrict bool, lV
 	return scope.IsKind(SPK_ASYNC) && name == "await"
 }
 
+// words which are reserved anywhere though they are not tokenized as keywords
+func isReservedName(name string) bool {
+	return name == "in" || name == "const"
+}
+
 func (p *Parser) identStrict(scope *Scope, forceStrict bool, binding bool) (Node, error) {
 	if scope == nil {
 		scope = p.scope()
@@ -3338,6 +3347,9 @@ func (p *Parser) identStrict(scope *Scope, forceStrict bool, binding bool) (Node
 			return nil, p.errorAtLoc(rng, fmt.Sprintf(ERR_TPL_FORBIDDEN_LEXICAL_NAME, name))
 		}
 	}
+	if isReservedName(name) {
+		return nil, p.errorAtLoc(rng, fmt.Sprintf(ERR_TPL_UNEXPECTED_TOKEN_TYPE, name))
+	}
 
 	return &Ident{N_NAME, rng, name, false, tok.ContainsEscape(), span.Range{}, tok.IsKw(), p.newTypInfo(N_NAME)}, nil
 }
@@ -3822,7 +3834,7 @@ func (p *Parser) propName(allowNamePVT bool, maybeMethod bool, tsRough bool) (No
 		}
 		key = name
 	} else if ok {
-		if !kw && p.isProhibitedName(nil, keyName, true, false, false, false) {
+		if !kw && (isReservedName(keyName) || p.isProhibitedName(nil, keyName, true, false, false, false)) {
 			kw = true
 		}
 		// stmt `let { let } = {}` will raise error `let is disallowed as a lexically bound name` in sloppy mode
@@ -5798,6 +5810,9 @@ func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 
 		p.lexer.Next()
 		name := p.TokText(tok)
+		if isReservedName(name) {
+			return nil, p.errorAtLoc(p.finRng(loc), fmt.Sprintf(ERR_TPL_UNEXPECTED_TOKEN_TYPE, name))
+		}
 		ahead := p.lexer.Peek()
 		// `ahead.value != T_ARROW` is used to skip checking name when it appears in the param list of arrow expr
 		// for `eval => 42` we should report binding-reserved-word error instead of unexpected-reserved-word error
-- 
2.43.0


From 1c14fe66be9a91d5dfef7d1b5dc76fd9c86c50a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:23 +0000
Subject: [PATCH 21/62] fix: calls following nested new expressions belong to
 the outer ones, `async * x` is a multiplication

---
 ecma/parser/parser.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 1808485..8eda2a2 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2514,7 +2514,7 @@ func (p *Parser) aheadIsAsync(tok *Token, prop bool, pvt bool) bool {
 		}
 		if ahead.value == T_FUNC ||
 			(p.aheadIsArgList(ahead) && !prop) ||
-			ahead.value == T_MUL {
+			(ahead.value == T_MUL && prop) {
 			return true
 		}
 		_, canProp := ahead.CanBePropKey()
@@ -4487,7 +4487,7 @@ func (p *Parser) lhs(notColon bool) (Node, error) {
 	var node Node
 	var err error
 	if tok.value == T_NEW {
-		node, err = p.newExpr()
+		node, err = p.newExpr(false)
 	} else {
 		node, _, err = p.callExpr(nil, true, false, span.Range{}, notColon)
 	}
@@ -4505,7 +4505,8 @@ func (p *Parser) lhs(notColon bool) (Node, error) {
 }
 
 // https://tc39.es/ecma262/multipage/ecmascript-language-expressions.html#prod-NewExpression
-func (p *Parser) newExpr() (Node, error) {
+// `nested` indicates the expr is the callee of another newExpr
+func (p *Parser) newExpr(nested bool) (Node, error) {
 	rng := p.rng()
 	new := p.lexer.Next()
 
@@ -4591,6 +4592,9 @@ func (p *Parser) newExpr() (Node, error) {
 
 	var ret Node
 	ret = &NewExpr{N_EXPR_NEW, p.finRng(rng), expr, args, span.Range{}, ti}
+	if nested {
+		return ret, nil
+	}
 	root := true
 	for {
 		tok := p.lexer.Peek()
@@ -5624,7 +5628,8 @@ func (p *Parser) memberExpr(obj Node, call bool, root bool, optLoc span.Range) (
 	var err error
 	if obj == nil {
 		if p.lexer.Peek().value == T_NEW {
-			if obj, err = p.newExpr(); err != nil {
+			// the parts following the arguments are handled by below loop
+			if obj, err = p.newExpr(true); err != nil {
 				return nil, span.Range{}, err
 			}
 		} else if obj, err = p.memberExprObj(); err != nil {
-- 
2.43.0


From 7483117fa349537951a99ef7e9724ccbaa1128de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:16 +0000
Subject: [PATCH 22/62] fix: parenthesized members are assignable, patterns are
 not operands of updates and compound assignments, `?` is not permitted after
 params in js

---
 ecma/parser/parser.go | 14 ++++++++------
 ecma/parser/ts.go     |  3 +++
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 8eda2a2..b73ce4a 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4175,7 +4175,7 @@ func (p *Parser) assignExpr(checkLhs bool, notGT bool, notHook bool, notColon bo
 		return nil, err
 	}
 
-	if checkLhs && !p.isSimpleLVal(lhs, true, false, true, op != T_ASSIGN) {
+	if (checkLhs || op != T_ASSIGN) && !p.isSimpleLVal(lhs, true, false, true, op != T_ASSIGN) {
 		return nil, p.errorAtLoc(lhs.Range(), ERR_ASSIGN_TO_RVALUE)
 	}
 
@@ -4215,7 +4215,7 @@ func (p *Parser) isSimpleLVal(expr Node, pat bool, inParen bool, member bool, op
 		return member
 	case N_EXPR_PAREN:
 		node := expr.(*ParenExpr)
-		return p.isSimpleLVal(node.expr, pat, true, false, optAssign)
+		return p.isSimpleLVal(node.expr, pat, true, member, optAssign)
 	case N_EXPR_BIN:
 		node := expr.(*BinExpr)
 		return node.op == T_TS_AS
@@ -4428,7 +4428,7 @@ func (p *Parser) updateExpr(typArgs Node, typArgsLoc span.Range, notColon bool)
 		if err != nil {
 			return nil, err
 		}
-		if !p.isSimpleLVal(arg, true, false, true, false) {
+		if !p.isSimpleLVal(arg, true, false, true, true) {
 			return nil, p.errorAtLoc(arg.Range(), ERR_ASSIGN_TO_RVALUE)
 		}
 		ud := &UpdateExpr{N_EXPR_UPDATE, p.finRng(rng), op, true, arg, span.Range{}}
@@ -4468,7 +4468,7 @@ func (p *Parser) updateExpr(typArgs Node, typArgsLoc span.Range, notColon bool)
 		return arg, nil
 	}
 
-	if !p.isSimpleLVal(arg, true, false, true, false) {
+	if !p.isSimpleLVal(arg, true, false, true, true) {
 		return nil, p.errorAtLoc(arg.Range(), ERR_ASSIGN_TO_RVALUE)
 	}
 
@@ -5233,8 +5233,10 @@ func (p *Parser) argToParam(arg Node, depth int, prop bool, destruct bool, inPar
 		return rest, nil
 	case N_EXPR_PAREN:
 		sub := arg.(*ParenExpr).expr
-		if !destruct || !p.isPrimitive(sub) && !p.isTsLhs(sub) {
-			st := sub.Type()
+		st := sub.Type()
+		// `(a.b) = c` and `((a)) = b` are legal
+		legal := st == N_EXPR_MEMBER || st == N_EXPR_PAREN
+		if !destruct || !legal && !p.isPrimitive(sub) && !p.isTsLhs(sub) {
 			if !(destruct && st == N_EXPR_BIN && sub.(*BinExpr).op == T_TS_AS) {
 				if st != N_LIT_ARR && st != N_LIT_OBJ && st != N_NAME {
 					return nil, p.errorAtLoc(sub.Range(), ERR_ASSIGN_TO_RVALUE)
diff --git a/ecma/parser/ts.go b/ecma/parser/ts.go
index 9bb658d..95f1405 100644
--- a/ecma/parser/ts.go
+++ b/ecma/parser/ts.go
@@ -226,6 +226,9 @@ func (p *Parser) tsExprHasTypAnnot(node Node) bool {
 }
 
 func (p *Parser) tsAdvanceHook(ep bool) (ques, not span.Range) {
+	if !p.ts {
+		return
+	}
 	ahead := p.lexer.Peek()
 	av := ahead.value
 	if av == T_HOOK {
-- 
2.43.0


From d7c8fa4397851057976a2564848c3dca611c29ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:49 +0000
Subject: [PATCH 23/62] fix: report missing separators, misplaced rest
 elements, reserved names, duplicate params of arrows, shorthand properties
 outside of patterns and other early errors; regexps after yield

---
 ecma/parser/astutil.go |   2 +-
 ecma/parser/errors.go  |   1 +
 ecma/parser/parser.go  | 164 +++++++++++++++++++++++++++++++++++------
 3 files changed, 142 insertions(+), 25 deletions(-)

diff --git a/ecma/parser/astutil.go b/ecma/parser/astutil.go
index 5066b98..f885797 100644
--- a/ecma/parser/astutil.go
+++ b/ecma/parser/astutil.go
@@ -130,7 +130,7 @@ func TokText(t *Token, s *span.Source) string {
 		return ""
 	}
 
-	if !t.txt.Empty() {
+	if !t.txt.Empty() && t.txt.Valid() {
 		t.text = s.RngText(t.txt)
 	} else if t.rng.Valid() {
 		t.text = s.RngText(t.rng)
diff --git a/ecma/parser/errors.go b/ecma/parser/errors.go
index f0bf8d1..2955e65 100644
--- a/ecma/parser/errors.go
+++ b/ecma/parser/errors.go
@@ -155,6 +155,7 @@ const (
 	ERR_NUM_SEP_DUP                                = "Only one underscore is allowed as numeric separator"
 	ERR_NUM_SEP_IN_LEGACY_OCTAL                    = "Numeric separator is not allowed in legacy octal numeric literals"
 	ERR_ILLEGAL_IMPORT_PROP                        = "The only valid meta property for import is `import.meta`"
+	ERR_IMPORT_META_OUTSIDE_MODULE                 = "`import.meta` can only be used in a module"
 	ERR_META_PROP_CONTAINS_ESCAPE                  = "Meta property can not contain escaped characters"
 	ERR_DYNAMIC_IMPORT_CANNOT_NEW                  = "Cannot use new with `import()`"
 	ERR_DECORATOR_INVALID_POSITION                 = "Leading decorators must be attached to a class declaration"
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index b73ce4a..24775ff 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -40,6 +40,12 @@ type Parser struct {
 	// identified by their `[line, column]`
 	ltTokens map[uint32]bool
 
+	// shorthand properties with default values, they are legal only if the object they belong
+	// to is used as pattern
+	coverInits []*Prop
+	// the first shorthand property which is not identifier
+	badShorthand Node
+
 	// the parsed decorators but have not been attached to the target nodes
 	hangingDecorators []Node
 
@@ -129,6 +135,8 @@ func (p *Parser) Setup(src *span.Source, opts *ParserOpts) {
 	p.checkName = true
 	p.danglingPvtRefs = make([]*Ref, 0)
 	p.ltTokens = map[uint32]bool{}
+	p.coverInits = nil
+	p.badShorthand = nil
 	p.symtab = NewSymTab(opts.Externals)
 	p.loopStk = []Node{}
 	p.retsStk = [][]Node{}
@@ -241,9 +249,32 @@ func (p *Parser) Prog() (Node, error) {
 		return nil, err
 	}
 
+	if p.badShorthand != nil {
+		return nil, p.errorAtLoc(p.badShorthand.Range(), ERR_UNEXPECTED_TOKEN)
+	}
+	if len(p.coverInits) > 0 {
+		return nil, p.errorAtLoc(p.coverInits[0].opLoc, ERR_SHORTHAND_PROP_ASSIGN_NOT_IN_DESTRUCT)
+	}
+
 	return pg, nil
 }
 
+// the shorthand properties in the given range are in pattern
+func (p *Parser) acceptCoverInits(rng span.Range) {
+	rest := p.coverInits[:0]
+	for _, prop := range p.coverInits {
+		if prop.opLoc.Lo < rng.Lo || prop.opLoc.Lo >= rng.Hi {
+			rest = append(rest, prop)
+		}
+	}
+	p.coverInits = rest
+}
+
+func isPlainFn(node Node) bool {
+	fn, ok := node.(*FnDec)
+	return ok && !fn.async && !fn.generator
+}
+
 func (p *Parser) resolvingDanglingPvtRefs() error {
 	for _, ref := range p.danglingPvtRefs {
 		if ref.Typ == RDT_PVT_FIELD {
@@ -444,7 +475,7 @@ func (p *Parser) stmt() (node Node, err error) {
 		if scope.IsKind(SPK_INTERIM) {
 			// `if (morning) function a(){}` is legal
 			// `for (morning;;) function a(){}` is illegal
-			if typ == N_STMT_FN && (scope.IsKind(SPK_STRICT) || scope.IsKind(SPK_LOOP_DIRECT)) {
+			if typ == N_STMT_FN && (scope.IsKind(SPK_STRICT) || scope.IsKind(SPK_LOOP_DIRECT) || !isPlainFn(node)) {
 				return nil, p.errorAtLoc(node.Range(), ERR_FN_IN_SINGLE_STMT_CTX)
 			}
 		}
@@ -496,7 +527,7 @@ func (p *Parser) exportDec() (Node, error) {
 		if err != nil {
 			return nil, err
 		}
-	} else if p.aheadIsAsync(tok, false, false) {
+	} else if p.aheadIsAsync(tok, false, false) && p.lexer.Peek2nd().value == T_FUNC {
 		if tok.ContainsEscape() {
 			return nil, p.errorAt(tv, tok.rng, ERR_ESCAPE_IN_KEYWORD)
 		}
@@ -515,7 +546,7 @@ func (p *Parser) exportDec() (Node, error) {
 		tv = tok.value
 		if tv == T_FUNC {
 			node.dec, err = p.fnDec(false, nil, true)
-		} else if p.aheadIsAsync(tok, false, false) {
+		} else if p.aheadIsAsync(tok, false, false) && p.lexer.Peek2nd().value == T_FUNC {
 			if tok.ContainsEscape() {
 				return nil, p.errorAt(tv, tok.rng, ERR_ESCAPE_IN_KEYWORD)
 			}
@@ -534,9 +565,10 @@ func (p *Parser) exportDec() (Node, error) {
 			}
 		} else {
 			node.dec, err = p.assignExpr(true, false, false, false)
-			if err := p.advanceIfSemi(false); err != nil {
+			if err != nil {
 				return nil, err
 			}
+			err = p.advanceIfSemi(true)
 		}
 		if err != nil {
 			return nil, err
@@ -826,6 +858,8 @@ func (p *Parser) importDec() (Node, error) {
 	tok := p.lexer.Peek()
 	node := &ImportDec{N_STMT_IMPORT, span.Range{}, specs, nil, false}
 
+	bare := tok.value == T_STRING // import "a"
+
 	// the second arg set to `true` for stmt like: `import type * as Types`
 	typDec := p.aheadIsTsTypDec(tok, true)
 	if typDec {
@@ -913,6 +947,8 @@ func (p *Parser) importDec() (Node, error) {
 	av := ahead.value
 	if av == T_NAME && ahead.text == "from" && !ahead.ContainsEscape() {
 		p.lexer.Next()
+	} else if len(specs) > 0 || !bare {
+		return nil, p.errorTok(ahead)
 	}
 
 	str, err := p.nextMustTok(T_STRING)
@@ -935,6 +971,9 @@ func (p *Parser) importDec() (Node, error) {
 			s := spec.(*ImportSpec)
 			ref := NewRef()
 			ref.Id = s.local.(*Ident)
+			if p.isProhibitedName(nil, ref.Id.val, true, true, false, false) {
+				return nil, p.errorAtLoc(ref.Id.Range(), fmt.Sprintf(ERR_TPL_BINDING_RESERVED_WORD, ref.Id.val))
+			}
 			ref.Dec = node
 			ref.BindKind = BK_CONST
 			ref.Typ = RDT_IMPORT
@@ -1034,8 +1073,10 @@ func (p *Parser) importNamed(typ bool) ([]Node, error) {
 			return nil, err
 		}
 		specs = append(specs, spec)
-		if p.lexer.Peek().value == T_COMMA {
+		if ahead := p.lexer.Peek(); ahead.value == T_COMMA {
 			p.lexer.Next()
+		} else if ahead.value != T_BRACE_R {
+			return nil, p.errorTok(ahead)
 		}
 	}
 
@@ -1104,6 +1145,9 @@ func (p *Parser) classDec(expr bool, canNameOmitted bool, declare bool, abstract
 			if err != nil {
 				return nil, err
 			}
+			if name := id.(*Ident).val; name == "eval" || name == "arguments" {
+				return nil, p.errorAtLoc(id.Range(), fmt.Sprintf(ERR_TPL_BINDING_RESERVED_WORD, name))
+			}
 		}
 
 		if ti != nil {
@@ -1505,7 +1549,7 @@ func (p *Parser) classElem(inDeclare bool) (Node, error) {
 			return nil, p.errorAt(ahead.value, ahead.rng, ERR_ESCAPE_IN_KEYWORD)
 		}
 		return p.method(beginLoc, nil, accMod, span.Range{}, false, PK_METHOD, false, true, true, true, static, beginLoc, declare, abstract, override, nil)
-	} else if p.aheadIsArgList(ahead) {
+	} else if p.aheadIsArgList(ahead) && fieldName != "" {
 		key := &Ident{N_NAME, fieldLoc, fieldName, false, escape, span.Range{}, true, p.newTypInfo(N_STMT_CLASS)}
 		return p.method(beginLoc, key, accMod, span.Range{}, false, PK_METHOD, false, false, false, true, false, beginLoc, false, false, false, nil)
 	} else if ahead.value == T_MUL {
@@ -1687,7 +1731,9 @@ func (p *Parser) field(key Node, begin, static span.Range, accMod ACC_MOD, begin
 		}
 		return p.method(rng, key, accMod, compute, false, kd, false, false, true, true, !static.Empty(), beginLoc, !declare.Empty(), !abstract.Empty(), !override.Empty(), ti)
 	}
-	p.advanceIfSemi(false)
+	if err := p.advanceIfSemi(!p.ts); err != nil {
+		return nil, err
+	}
 
 	if p.ts && !compute.Empty() && ti.typAnnot != nil {
 		if !abstract.Empty() {
@@ -1820,10 +1866,14 @@ func (p *Parser) tryStmt() (Node, error) {
 		p.lexer.Next()
 
 		ahead := p.lexer.Peek()
+		scopeBase := p.symtab.scopeIdSeed
 		var param Node
 		if ahead.value == T_PAREN_L {
 			p.lexer.Next()
 
+			if ahead := p.lexer.Peek(); ahead.value == T_DOT_TRI {
+				return nil, p.errorTok(ahead)
+			}
 			param, err = p.bindingPattern()
 			if err != nil {
 				return nil, err
@@ -1843,10 +1893,14 @@ func (p *Parser) tryStmt() (Node, error) {
 		}
 
 		scope := p.symtab.EnterScope(false, false, true)
+		p.symtab.adoptScopes(scope, scopeBase)
 		scope.AddKind(SPK_CATCH)
 
 		if param != nil {
-			names, _, _ := p.collectNames([]Node{param})
+			names, _, err := p.collectNames([]Node{param})
+			if err != nil {
+				return nil, err
+			}
 			for _, nameNode := range names {
 				id := nameNode.(*Ident)
 				if ok := p.isProhibitedName(nil, id.val, true, true, false, false); ok {
@@ -1953,7 +2007,7 @@ func (p *Parser) retStmt() (Node, error) {
 }
 
 func (p *Parser) aheadIsLabel(tok *Token) bool {
-	if tok.value == T_NAME {
+	if tok.value == T_NAME && !p.aheadIsYield() {
 		ahead := p.lexer.Peek2nd()
 		return ahead.value == T_COLON
 	}
@@ -2382,6 +2436,7 @@ func (p *Parser) forStmt() (Node, error) {
 			// do the `argToParam` check only if the type of init is LitObj or LitArr otherwise
 			// just check their simplicity
 			if it == N_LIT_OBJ || it == N_LIT_ARR {
+				p.acceptCoverInits(init.Range())
 				if init, err = p.argToParam(init, 0, false, true, false); err != nil {
 					return nil, err
 				}
@@ -2393,10 +2448,11 @@ func (p *Parser) forStmt() (Node, error) {
 			if len(varDec.decList) > 1 {
 				return nil, p.errorAtLoc(varDec.decList[1].Range(), ERR_DUP_BINDING)
 			}
-			if p.scope().IsKind(SPK_STRICT) {
-				for _, dec := range varDec.decList {
-					d := dec.(*VarDec)
-					if d.init != nil {
+			for _, dec := range varDec.decList {
+				d := dec.(*VarDec)
+				if d.init != nil {
+					// only `for(var a = b in c)` is legal and only in sloppy mode
+					if isOf || p.scope().IsKind(SPK_STRICT) || varDec.kind != T_VAR || d.id.Type() != N_NAME {
 						et := ERR_FOR_OF_LOOP_HAS_INIT
 						if isIn {
 							et = ERR_FOR_IN_LOOP_HAS_INIT
@@ -2454,6 +2510,19 @@ func (p *Parser) forStmt() (Node, error) {
 	loopNode := &ForStmt{N_STMT_FOR, span.Range{}, nil, nil, nil, nil}
 	p.pushLoopStk(loopNode)
 
+	if varDec, ok := init.(*VarDecStmt); ok {
+		for _, dec := range varDec.decList {
+			d := dec.(*VarDec)
+			if d.init != nil {
+				continue
+			}
+			if d.id.Type() != N_NAME {
+				return nil, p.errorAtLoc(d.rng, ERR_COMPLEX_BINDING_MISSING_INIT)
+			} else if varDec.kind == T_CONST {
+				return nil, p.errorAtLoc(d.rng, ERR_CONST_DEC_INIT_REQUIRED)
+			}
+		}
+	}
 	if _, err := p.nextMustTok(T_SEMI); err != nil {
 		return nil, err
 	}
@@ -2639,6 +2708,10 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 			return nil, err
 		}
 	} else {
+		if id != nil {
+			// `async a()`
+			return nil, p.errorTok(ahead)
+		}
 		// the arg check is skipped here, the correctness of args is guaranteed by
 		// below `argsToFormalParams`
 		p.checkName = false
@@ -2679,6 +2752,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 		if !fn {
 			arrowLoc = p.lexer.Next().rng
 			arrow = true
+			p.acceptCoverInits(span.Range{Lo: rng.Lo, Hi: arrowLoc.Lo})
 			scope.AddKind(SPK_ARROW)
 		} else {
 			return nil, p.errorTok(tok)
@@ -2718,7 +2792,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 			if body, err = p.fnBody(); err != nil {
 				return nil, err
 			}
-		} else if expr || arrow {
+		} else if arrow {
 			if body, err = p.assignExpr(true, false, false, false); err != nil {
 				return nil, err
 			}
@@ -2788,14 +2862,22 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	directStrict := scope.IsKind(SPK_STRICT_DIR)
 	if id != nil {
 		name := id.(*Ident).val
-		if p.isProhibitedName(idScope, name, isStrict, true, false, false) {
+		if p.isProhibitedName(idScope, name, isStrict, true, false, isStrict) ||
+			(expr && generator && name == "yield") || (expr && async != nil && name == "await") {
 			return nil, p.errorAtLoc(id.Range(), fmt.Sprintf(ERR_TPL_UNEXPECTED_TOKEN_TYPE, name))
 		}
 	}
 
-	if err := p.checkParams(paramNames, firstComplicated, isStrict, directStrict); err != nil {
+	if err := p.checkParams(paramNames, firstComplicated, isStrict, directStrict, arrow); err != nil {
 		return nil, err
 	}
+	if generator {
+		for _, id := range paramNames {
+			if id.(*Ident).val == "yield" {
+				return nil, p.errorAtLoc(id.Range(), fmt.Sprintf(ERR_TPL_BINDING_RESERVED_WORD, "yield"))
+			}
+		}
+	}
 
 	if p.ts {
 		if body == nil {
@@ -2890,9 +2972,10 @@ func (p *Parser) collectNames(nodes []Node) (names []Node, firstComplicated span
 
 // https://tc39.es/ecma262/multipage/ecmascript-language-functions-and-classes.html#sec-parameter-lists-static-semantics-early-errors
 // `isSimpleParamList` should be true if function body directly contains `use strict` directive
-func (p *Parser) checkParams(names []Node, firstComplicated span.Range, isStrict bool, directStrict bool) error {
+// `unique` indicates duplicate names are illegal even in sloppy mode
+func (p *Parser) checkParams(names []Node, firstComplicated span.Range, isStrict bool, directStrict bool, unique bool) error {
 	var dupLoc span.Range
-	unique := make(map[string]bool)
+	met := make(map[string]bool)
 	for _, id := range names {
 		name := id.(*Ident).val
 		if p.isProhibitedName(nil, name, isStrict, true, false, false) {
@@ -2900,11 +2983,11 @@ func (p *Parser) checkParams(names []Node, firstComplicated span.Range, isStrict
 		}
 
 		if dupLoc.Empty() {
-			if _, ok := unique[name]; ok {
+			if _, ok := met[name]; ok {
 				dupLoc = id.Range()
 
 			} else {
-				unique[name] = true
+				met[name] = true
 			}
 		}
 	}
@@ -2914,7 +2997,7 @@ func (p *Parser) checkParams(names []Node, firstComplicated span.Range, isStrict
 	}
 
 	if !dupLoc.Empty() {
-		if isStrict {
+		if isStrict || unique {
 			return p.errorAtLoc(dupLoc, ERR_DUP_PARAM_NAME)
 		}
 		if !firstComplicated.Empty() {
@@ -3257,6 +3340,9 @@ func (p *Parser) varDec(lexical bool) (*VarDec, error) {
 		scope.AddKind(SPK_LEXICAL_DEC)
 	}
 
+	if ahead := p.lexer.Peek(); ahead.value == T_DOT_TRI {
+		return nil, p.errorTok(ahead)
+	}
 	binding, err := p.bindingPattern()
 	if err != nil {
 		return nil, err
@@ -3737,6 +3823,9 @@ func (p *Parser) patternProp() (Node, error) {
 	var value Node
 	if tok.value == T_COLON {
 		p.lexer.Next()
+		if ahead := p.lexer.Peek(); ahead.value == T_DOT_TRI {
+			return nil, p.errorTok(ahead)
+		}
 		value, err = p.bindingElem(false)
 		if err != nil {
 			return nil, err
@@ -3750,6 +3839,9 @@ func (p *Parser) patternProp() (Node, error) {
 
 	shorthand := false
 	if value == nil {
+		if key.Type() != N_NAME || !compute.Empty() {
+			return nil, p.errorTok(tok)
+		}
 		value = key
 		shorthand = true
 	}
@@ -4091,6 +4183,8 @@ func (p *Parser) aheadIsYield() bool {
 func (p *Parser) yieldExpr() (Node, error) {
 	rng := p.rng()
 	tok := p.lexer.Next()
+	// the slash following `yield` is the beginning of regexp
+	p.lexer.PeekStmtBegin()
 
 	if p.scope().IsKind(SPK_FORMAL_PARAMS) {
 		return nil, p.errorAt(tok.value, tok.rng, ERR_YIELD_IN_FORMAL_PARAMS)
@@ -4157,6 +4251,9 @@ func (p *Parser) assignExpr(checkLhs bool, notGT bool, notHook bool, notColon bo
 	}
 	op := assign.value
 	opLoc := assign.rng
+	if op == T_ASSIGN {
+		p.acceptCoverInits(span.Range{Lo: lhs.Range().Lo, Hi: opLoc.Lo})
+	}
 
 	rhs, err := p.assignExpr(checkLhs, notGT, false, false)
 	if err != nil {
@@ -4321,6 +4418,9 @@ func (p *Parser) awaitExpr(tok *Token) (Node, error) {
 			}
 			return nil, p.errorTok(ahead)
 		}
+		if scope.IsKind(SPK_ASYNC) && !scope.IsKind(SPK_FORMAL_PARAMS) {
+			return nil, p.errorTok(ahead)
+		}
 		return &Ident{N_NAME, p.finRng(rng), "await", false, tok.ContainsEscape(), span.Range{}, true, p.newTypInfo(N_NAME)}, nil
 	}
 
@@ -4806,6 +4906,9 @@ func (p *Parser) importCall(tok *Token) (Node, error) {
 			return nil, p.errorAtLoc(prop.rng, ERR_META_PROP_CONTAINS_ESCAPE)
 		}
 
+		if p.feat&FEAT_MODULE == 0 {
+			return nil, p.errorAtLoc(rng, ERR_IMPORT_META_OUTSIDE_MODULE)
+		}
 		return &MetaProp{N_META_PROP, p.finRng(rng), meta, prop}, nil
 	}
 
@@ -5916,6 +6019,7 @@ func (p *Parser) arrowFn(rng span.Range, scopeBase int, args []Node, params []No
 	}
 
 	arrowLoc := p.lexer.Next().rng
+	p.acceptCoverInits(span.Range{Lo: rng.Lo, Hi: arrowLoc.Lo})
 	ps := p.scope()
 	scope := p.symtab.EnterScope(true, true, true)
 	p.symtab.adoptScopes(scope, scopeBase)
@@ -5968,7 +6072,7 @@ func (p *Parser) arrowFn(rng span.Range, scopeBase int, args []Node, params []No
 
 	isStrict := scope.IsKind(SPK_STRICT)
 	directStrict := scope.IsKind(SPK_STRICT_DIR)
-	if err := p.checkParams(paramNames, firstComplicated, isStrict, directStrict); err != nil {
+	if err := p.checkParams(paramNames, firstComplicated, isStrict, directStrict, true); err != nil {
 		return nil, err
 	}
 
@@ -6242,6 +6346,9 @@ func (p *Parser) propData() (Node, error) {
 	tok := p.lexer.Peek()
 	opLoc := tok.rng
 	assign := tok.value == T_ASSIGN
+	if id, ok := key.(*Ident); ok && assign && id.kw && compute.Empty() && id.val != "eval" && id.val != "arguments" {
+		return nil, p.errorAtLoc(id.rng, fmt.Sprintf(ERR_TPL_UNEXPECTED_TOKEN_TYPE, id.val))
+	}
 	if tok.value == T_COLON || assign {
 		p.lexer.Next()
 		value, err = p.assignExpr(true, false, false, false)
@@ -6264,7 +6371,16 @@ func (p *Parser) propData() (Node, error) {
 		shorthand = true
 		value = key
 	}
-	return &Prop{N_PROP, p.finRng(loc), key, opLoc, value, !compute.Empty(), false, shorthand, assign, PK_INIT, ACC_MOD_NONE}, nil
+	prop := &Prop{N_PROP, p.finRng(loc), key, opLoc, value, !compute.Empty(), false, shorthand, assign, PK_INIT, ACC_MOD_NONE}
+	if assign {
+		if err := p.checkArg(value, false, false); err != nil {
+			return nil, err
+		}
+		p.coverInits = append(p.coverInits, prop)
+	} else if value == nil && p.badShorthand == nil {
+		p.badShorthand = key
+	}
+	return prop, nil
 }
 
 func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.Range, shorthand bool, kind PropKind,
@@ -6424,7 +6540,7 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 	directStrict := scope.IsKind(SPK_STRICT_DIR)
 
 	// `isProhibitedName` is not needed here since `keyword` as method name is permitted
-	if err := p.checkParams(paramNames, firstComplicated, isStrict, directStrict); err != nil {
+	if err := p.checkParams(paramNames, firstComplicated, isStrict, directStrict, true); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 3c1872f0544717e4e530362c1f34432212c1fe0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:15 +0000
Subject: [PATCH 24/62] fix: super in the blocks and arrow functions of object
 methods, no panic on default values holding bare numeric keys

---
 ecma/parser/parser.go |  5 ++++-
 ecma/parser/symtab.go | 15 +++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 24775ff..af39323 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -5070,6 +5070,9 @@ func (p *Parser) checkDefaultVal(val Node, yield bool, destruct bool, field bool
 		}
 	case N_PROP:
 		n := val.(*Prop)
+		if n.value == nil {
+			return nil
+		}
 		if err := p.checkDefaultVal(n.value, yield, destruct, field); err != nil {
 			return err
 		}
@@ -5967,7 +5970,7 @@ func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 		sup := p.lexer.Next()
 
 		ahead := p.lexer.Peek()
-		if !scope.IsKind(SPK_CLASS) && !scope.IsKind(SPK_CLASS_INDIRECT) && !scope.IsKind(SPK_METHOD) ||
+		if !scope.IsKind(SPK_CLASS) && !scope.IsKind(SPK_CLASS_INDIRECT) && !scope.inMethod() ||
 			scope.IsKind(SPK_PROP_NAME) {
 			em := ERR_SUPER_OUTSIDE_CLASS
 			if ahead.value == T_PAREN_L {
diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index 7349492..f32fc31 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -703,3 +703,18 @@ func (s *SymTab) HasExternal(name string) bool {
 	}
 	return false
 }
+
+// reports whether the home object of the scope is the one of a method, blocks and arrow functions
+// share the home object with the scope they are nested in
+func (s *Scope) inMethod() bool {
+	for s != nil {
+		if s.IsKind(SPK_METHOD) {
+			return true
+		}
+		if s.IsKind(SPK_FUNC) && !s.IsKind(SPK_ARROW) {
+			return false
+		}
+		s = s.Up
+	}
+	return false
+}
-- 
2.43.0


From 69ab905033623f0381c6973055c4c1fe60450116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:10 +0000
Subject: [PATCH 25/62] fix: suffixes of new.target, delete of optional calls,
 end of the directive prologue, legacy octals next to the directive, targets
 of continue, places of super, spread with trailing comma in calls of async,
 yield as operand and other early errors

---
 ecma/parser/ast.go    |  2 ++
 ecma/parser/parser.go | 74 +++++++++++++++++++++++++++++++++++--------
 ecma/parser/symtab.go | 29 +++++++++++++----
 3 files changed, 85 insertions(+), 20 deletions(-)

diff --git a/ecma/parser/ast.go b/ecma/parser/ast.go
index 5f3421f..86226b7 100644
--- a/ecma/parser/ast.go
+++ b/ecma/parser/ast.go
@@ -1717,6 +1717,8 @@ type LabelStmt struct {
 	label Node
 	body  Node
 	used  bool
+	// whether the labeled stmt is a loop
+	loop bool
 }
 
 func (n *LabelStmt) Type() NodeType {
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index af39323..28b3b91 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -51,6 +51,8 @@ type Parser struct {
 
 	// a temporary stack which holds the loop nodes in their lexical order
 	loopStk []Node
+	// the labels whose stmt is about to be parsed
+	labelChain []*LabelStmt
 
 	// for resolving the `FnDec.rets`
 	retsStk [][]Node
@@ -2031,8 +2033,20 @@ func (p *Parser) labelStmt() (Node, error) {
 		return nil, p.errorAtLoc(rng, fmt.Sprintf(ERR_DUP_LABEL, labelName))
 	}
 
-	node := &LabelStmt{N_STMT_LABEL, span.Range{}, label, nil, false}
+	node := &LabelStmt{N_STMT_LABEL, span.Range{}, label, nil, false, false}
 	scope.uniqueLabels[labelName] = node
+
+	// the labels in the same chain belong to the same stmt
+	p.labelChain = append(p.labelChain, node)
+	if tok := p.lexer.PeekStmtBegin(); !p.aheadIsLabel(tok) {
+		switch tok.value {
+		case T_FOR, T_WHILE, T_DO:
+			for _, lb := range p.labelChain {
+				lb.loop = true
+			}
+		}
+		p.labelChain = p.labelChain[:0]
+	}
 	scope.Labels = append(scope.Labels, node)
 
 	scope.AddKind(SPK_INTERIM)
@@ -2109,6 +2123,8 @@ func (p *Parser) contStmt() (Node, error) {
 		target := p.scope().GetLabel(ln)
 		if target == nil {
 			return nil, p.errorAtLoc(label.rng, fmt.Sprintf(ERR_UNDEF_LABEL, label.val))
+		} else if !target.(*LabelStmt).loop {
+			return nil, p.errorAtLoc(rng, ERR_ILLEGAL_CONTINUE)
 		} else {
 			target.(*LabelStmt).used = true
 		}
@@ -2716,7 +2732,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 		// below `argsToFormalParams`
 		p.checkName = false
 		scope.AddKind(SPK_FORMAL_PARAMS)
-		args, _, typArgs, _, err = p.argList(false, false, asyncLoc, false)
+		args, _, typArgs, _, err = p.argList(false, true, asyncLoc, false)
 		scope.EraseKind(SPK_FORMAL_PARAMS)
 		p.checkName = true
 		if err != nil {
@@ -3130,9 +3146,7 @@ func (p *Parser) stmts(terminal TokenValue) ([]Node, error) {
 			if prologue != -1 && (scope.IsKind(SPK_FUNC) || scope.IsKind(SPK_GLOBAL)) {
 				strict, dir := p.isDirective(stmt)
 				if !dir {
-					if prologue == 0 {
-						prologue = -1
-					}
+					prologue = -1
 				} else {
 					stmt.(*ExprStmt).dir = true
 				}
@@ -3395,7 +3409,7 @@ func (p *Parser) isProhibitedName(scope *Scope, name string, withStrict bool, lV
 	if strict && ok {
 		return true
 	}
-	if (strict && lVal || field) && (name == "eval" || name == "arguments") {
+	if strict && lVal && (name == "eval" || name == "arguments") || field && name == "arguments" {
 		return true
 	}
 	return scope.IsKind(SPK_ASYNC) && name == "await"
@@ -3903,6 +3917,9 @@ func (p *Parser) propName(allowNamePVT bool, maybeMethod bool, tsRough bool) (No
 		}
 		key = &StrLit{N_LIT_STR, p.finRng(rng), p.TokText(tok), tok.HasLegacyOctalEscapeSeq(), span.Range{}, p.newTypInfo(N_LIT_STR)}
 	} else if tv == T_NUM {
+		if err := p.checkLegacyNum(tok); err != nil {
+			return nil, span.Range{}, err
+		}
 		key = &NumLit{N_LIT_NUM, p.finRng(rng), span.Range{}}
 	} else if tv == T_BRACKET_L {
 		computeLoc = tok.rng
@@ -4094,6 +4111,10 @@ func (p *Parser) patternRest(arrPat bool, allowNotLast bool) (Node, error) {
 	}
 	p.tsNodeTypAnnot(arg, typAnnot, ACC_MOD_NONE, span.Range{}, false, false, false, false, span.Range{})
 
+	if arrPat && p.lexer.Peek().value == T_ASSIGN {
+		return nil, p.errorAtLoc(arg.Range(), ERR_REST_CANNOT_SET_DEFAULT)
+	}
+
 	// always allow the trailing comma in typescript
 	if !allowNotLast && !p.ts {
 		tok = p.lexer.Peek()
@@ -4435,6 +4456,10 @@ func (p *Parser) awaitExpr(tok *Token) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
+	// `await () => {}` is illegal
+	if arg.Type() == N_EXPR_ARROW {
+		return nil, p.errorAtLoc(arg.Range(), ERR_MALFORMED_ARROW_PARAM)
+	}
 	return &UnaryExpr{N_EXPR_UNARY, p.finRng(rng), T_AWAIT, arg, span.Range{}}, nil
 }
 
@@ -4484,7 +4509,7 @@ func (p *Parser) unaryExpr(typArgs Node, typArgsLoc span.Range, notColon bool) (
 			if at == N_EXPR_MEMBER {
 				m = arg.(*MemberExpr)
 			} else if at == N_EXPR_CHAIN {
-				m = arg.(*ChainExpr).expr.(*MemberExpr)
+				m, _ = arg.(*ChainExpr).expr.(*MemberExpr)
 			}
 
 			if m != nil && m.prop.Type() == N_NAME {
@@ -4595,7 +4620,7 @@ func (p *Parser) lhs(notColon bool) (Node, error) {
 		return nil, err
 	}
 	node = p.tsNoNull(node)
-	if p.lexer.Peek().value == T_DOT {
+	if p.lexer.Peek().value == T_DOT || node.Type() == N_META_PROP && tok.value == T_NEW {
 		node, _, err = p.callExpr(node, true, false, span.Range{}, notColon)
 		if err != nil {
 			return nil, err
@@ -4647,6 +4672,10 @@ func (p *Parser) newExpr(nested bool) (Node, error) {
 	if expr.Type() == N_IMPORT_CALL {
 		return nil, p.errorAtLoc(expr.Range(), ERR_DYNAMIC_IMPORT_CANNOT_NEW)
 	}
+	// `new () => {}` is illegal
+	if expr.Type() == N_EXPR_ARROW && expr.(*ArrowFn).OuterParen().Empty() {
+		return nil, p.errorAtLoc(expr.Range(), ERR_MALFORMED_ARROW_PARAM)
+	}
 
 	var args []Node
 	var typArgs Node
@@ -4724,6 +4753,18 @@ func (p *Parser) newExpr(nested bool) (Node, error) {
 	return ret, nil
 }
 
+// the token next to the `use strict` directive is produced before the strict mode is entered
+func (p *Parser) checkLegacyNum(tok *Token) error {
+	if !p.scope().IsKind(SPK_STRICT) {
+		return nil
+	}
+	raw := p.RngText(tok.rng)
+	if len(raw) > 1 && raw[0] == '0' && IsDecimalDigit(rune(raw[1])) {
+		return p.errorAtLoc(tok.rng, ERR_LEGACY_OCTAL_IN_STRICT_MODE)
+	}
+	return nil
+}
+
 func (p *Parser) checkCallee(callee Node, nextLoc span.Range) error {
 	scope := p.scope()
 	switch callee.Type() {
@@ -4732,7 +4773,7 @@ func (p *Parser) checkCallee(callee Node, nextLoc span.Range) error {
 			return p.errorAtLoc(nextLoc, ERR_UNEXPECTED_TOKEN)
 		}
 	case N_SUPER:
-		if !scope.IsKind(SPK_CTOR) || !scope.IsKind(SPK_CLASS_HAS_SUPER) {
+		if !scope.inCtor() || !scope.IsKind(SPK_CLASS_HAS_SUPER) {
 			return p.errorAtLoc(callee.Range(), ERR_SUPER_CALL_OUTSIDE_CTOR)
 		}
 	case N_EXPR_MEMBER:
@@ -4866,6 +4907,9 @@ func (p *Parser) callExpr(callee Node, root bool, directOpt bool, opt span.Range
 				firstOpt = fo
 			}
 		} else if tv == T_TPL_HEAD {
+			if !firstOpt.Empty() {
+				return nil, span.Range{}, p.errorAtLoc(tok.rng, ERR_OPT_EXPR_IN_TAG)
+			}
 			callee, err = p.tplExpr(callee, false)
 			if err != nil {
 				return nil, span.Range{}, err
@@ -5889,6 +5933,9 @@ func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 	case T_NUM:
 		loc := tok.rng
 		p.lexer.Next()
+		if err := p.checkLegacyNum(tok); err != nil {
+			return nil, err
+		}
 		return &NumLit{N_LIT_NUM, p.finRng(loc), span.Range{}}, nil
 	case T_STRING:
 		loc := tok.rng
@@ -5923,13 +5970,13 @@ func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 
 		p.lexer.Next()
 		name := p.TokText(tok)
-		if isReservedName(name) {
+		if isReservedName(name) || name == "yield" && p.scope().IsKind(SPK_GENERATOR) && !tok.ContainsEscape() {
 			return nil, p.errorAtLoc(p.finRng(loc), fmt.Sprintf(ERR_TPL_UNEXPECTED_TOKEN_TYPE, name))
 		}
 		ahead := p.lexer.Peek()
 		// `ahead.value != T_ARROW` is used to skip checking name when it appears in the param list of arrow expr
 		// for `eval => 42` we should report binding-reserved-word error instead of unexpected-reserved-word error
-		if p.checkName && ahead.value != T_ARROW && !ahead.afterLineTerm && p.isProhibitedName(nil, name, true, false, false, false) {
+		if p.checkName && ahead.value != T_ARROW && p.isProhibitedName(nil, name, true, false, false, false) {
 			if tok.ContainsEscape() {
 				return nil, p.errorAtLoc(p.finRng(loc), ERR_ESCAPE_IN_KEYWORD)
 			}
@@ -5970,8 +6017,7 @@ func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 		sup := p.lexer.Next()
 
 		ahead := p.lexer.Peek()
-		if !scope.IsKind(SPK_CLASS) && !scope.IsKind(SPK_CLASS_INDIRECT) && !scope.inMethod() ||
-			scope.IsKind(SPK_PROP_NAME) {
+		if !scope.hasHomeObj() {
 			em := ERR_SUPER_OUTSIDE_CLASS
 			if ahead.value == T_PAREN_L {
 				em = ERR_SUPER_CALL_OUTSIDE_CTOR
@@ -6368,7 +6414,7 @@ func (p *Parser) propData() (Node, error) {
 	if value == nil && key.Type() == N_NAME {
 		id := key.(*Ident)
 		name := id.val
-		if id.kw && name != "eval" && name != "arguments" {
+		if id.kw && name != "eval" && name != "arguments" || name == "yield" && p.scope().IsKind(SPK_GENERATOR) {
 			return nil, p.errorAtLoc(id.rng, fmt.Sprintf(ERR_TPL_UNEXPECTED_TOKEN_TYPE, id.val))
 		}
 		shorthand = true
diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index f32fc31..3233f40 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -704,17 +704,34 @@ func (s *SymTab) HasExternal(name string) bool {
 	return false
 }
 
-// reports whether the home object of the scope is the one of a method, blocks and arrow functions
-// share the home object with the scope they are nested in
-func (s *Scope) inMethod() bool {
-	for s != nil {
+// reports whether `super` is permitted in the scope, blocks and arrow functions share the home object
+// with the scope they are nested in, so do the computed keys of class with the scope around that class
+func (s *Scope) hasHomeObj() bool {
+	for ; s != nil; s = s.Up {
 		if s.IsKind(SPK_METHOD) {
 			return true
 		}
-		if s.IsKind(SPK_FUNC) && !s.IsKind(SPK_ARROW) {
+		if s.IsKind(SPK_CLASS) {
+			if !s.IsKind(SPK_PROP_NAME) {
+				return true
+			}
+		} else if s.IsKind(SPK_FUNC) && !s.IsKind(SPK_ARROW) {
+			return false
+		}
+	}
+	return false
+}
+
+// reports whether the scope is in the constructor of class, not in the functions nested in it except for
+// the arrow functions
+func (s *Scope) inCtor() bool {
+	for ; s != nil; s = s.Up {
+		if s.IsKind(SPK_CTOR) {
+			return true
+		}
+		if s.IsKind(SPK_CLASS) || s.IsKind(SPK_FUNC) && !s.IsKind(SPK_ARROW) {
 			return false
 		}
-		s = s.Up
 	}
 	return false
 }
-- 
2.43.0


From 4256543a7ea7c0a3a9ed638acd2e8a60b4442a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:43 +0000
Subject: [PATCH 26/62] fix: `in` and `const` as names of imports and exports

---
 ecma/parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 28b3b91..e028f32 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -773,9 +773,12 @@ func (p *Parser) exportNamed(typ bool) ([]Node, error) {
 
 func (p *Parser) identWithKw(scope *Scope, binding bool) (Node, error) {
 	ahead := p.lexer.Peek()
-	if ahead.IsKw() {
+	if ahead.IsKw() || ahead.value == T_NAME && isReservedName(p.TokText(ahead)) {
 		p.lexer.Next()
 		str := TokenKinds[ahead.value].Name
+		if ahead.value == T_NAME {
+			str = p.TokText(ahead)
+		}
 		return &Ident{N_NAME, p.finRng(ahead.rng), str, false, false, span.Range{}, true, p.newTypInfo(N_NAME)}, nil
 	}
 	return p.ident(scope, binding)
-- 
2.43.0


From 0893235e030b5b181460516d03f4f909a272f6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:20 +0000
Subject: [PATCH 27/62] fix: return and await in static blocks, arguments in
 the initializers of fields, new.target and yield in their places, strict
 heritage of classes, escapes in identifiers and other early errors; keywords
 as private names

---
 ecma/parser/lexer.go  | 43 ++++++++++++++-------
 ecma/parser/parser.go | 87 ++++++++++++++++++++++++++++++++++---------
 ecma/parser/symtab.go | 58 +++++++++++++++++++++++++++++
 3 files changed, 156 insertions(+), 32 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index d05c066..67f260f 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -570,7 +570,7 @@ func (l *Lexer) readTplChs() (text []byte, fin bool, ofst, pos uint32, err strin
 				continue
 			}
 
-			r, e, lo := l.readEscapeSeq()
+			r, e, lo := l.readEscapeSeq(true)
 			if !legacyOctalEscapeSeq && lo {
 				legacyOctalEscapeSeq = lo
 			}
@@ -654,7 +654,7 @@ func (l *Lexer) readName(jsx bool) *Token {
 		return l.finToken(tok, Keywords[text])
 	}
 
-	if l.IsMode(LM_STRICT) && IsStrictKeyword(text) {
+	if l.IsMode(LM_STRICT) && IsStrictKeyword(text) && !containsEscape {
 		return l.finToken(tok, StrictKeywords[text])
 	}
 
@@ -1147,7 +1147,7 @@ func (l *Lexer) readStr() *Token {
 				}
 				l.readLineTerm() // LineContinuation
 			} else {
-				r, err, lo := l.readEscapeSeq()
+				r, err, lo := l.readEscapeSeq(false)
 				if !legacyOctalEscapeSeq && lo {
 					legacyOctalEscapeSeq = lo
 				}
@@ -1214,7 +1214,7 @@ func (l *Lexer) readJsxStr() *Token {
 	return l.finToken(tok, T_STRING)
 }
 
-func (l *Lexer) readEscapeSeq() (r rune, errMsg string, octalEscapeSeq bool) {
+func (l *Lexer) readEscapeSeq(tpl bool) (r rune, errMsg string, octalEscapeSeq bool) {
 	c := l.src.Read()
 	switch c {
 	case 'b':
@@ -1237,9 +1237,13 @@ func (l *Lexer) readEscapeSeq() (r rune, errMsg string, octalEscapeSeq bool) {
 		return
 	case '0', '1', '2', '3', '4', '5', '6', '7':
 		var i int
-		r, errMsg, i = l.readOctalEscapeSeq(c)
-		octalEscapeSeq = r != 0 || i != 1
+		r, errMsg, i = l.readOctalEscapeSeq(c, tpl)
+		octalEscapeSeq = r != 0 || i != 1 || IsDecimalDigit(l.src.Peek())
 		return
+	case '8', '9':
+		if tpl {
+			return utf8.RuneError, ERR_TPL_LEGACY_OCTAL_ESCAPE_IN, false
+		}
 	case 'x':
 		r, errMsg = l.readHexEscapeSeq()
 		return
@@ -1256,12 +1260,12 @@ func (l *Lexer) readEscapeSeq() (r rune, errMsg string, octalEscapeSeq bool) {
 }
 
 // https://tc39.es/ecma262/multipage/ecmascript-language-lexical-grammar.html#prod-LegacyOctalEscapeSequence
-func (l *Lexer) readOctalEscapeSeq(first rune) (rune, string, int) {
+func (l *Lexer) readOctalEscapeSeq(first rune, tpl bool) (rune, string, int) {
 	octal := make([]rune, 0, 3)
 	octal = append(octal, first)
 	zeroToThree := first >= '0' && first <= '3'
 	i := 1
-	if l.IsMode(LM_TEMPLATE) {
+	if tpl {
 		if first == '0' && !IsDecimalDigit(l.src.Peek()) {
 			return 0, "", i
 		}
@@ -1287,10 +1291,11 @@ func (l *Lexer) readOctalEscapeSeq(first rune) (rune, string, int) {
 
 func (l *Lexer) readHexEscapeSeq() (rune, string) {
 	hex := [2]rune{}
-	hex[0] = l.src.Read()
-	hex[1] = l.src.Read()
-	if !IsHexDigit(hex[0]) || !IsHexDigit(hex[1]) {
-		return utf8.RuneError, ERR_BAD_ESCAPE_SEQ
+	for i := range hex {
+		if !IsHexDigit(l.src.Peek()) {
+			return utf8.RuneError, ERR_BAD_ESCAPE_SEQ
+		}
+		hex[i] = l.src.Read()
 	}
 	r, err := strconv.ParseInt(string(hex[:]), 16, 32)
 	if err != nil {
@@ -1314,9 +1319,10 @@ func (l *Lexer) readNamePvt() *Token {
 	}
 	tok := l.readName(false)
 	tok.rng.Lo = ofst
-	if tok.value != T_NAME {
+	if tok.value == T_ILLEGAL {
 		return tok
 	}
+	// any identifier name can follow `#`, keywords are included
 	tok.value = T_NAME_PVT
 	if l.feat&FEAT_CLASS_PRV == 0 {
 		tok.value = T_ILLEGAL
@@ -1597,7 +1603,12 @@ type FixedOfstErr struct {
 
 func (l *Lexer) readIdStart() (rune, bool, *FixedOfstErr) {
 	c := l.src.Read()
-	return l.readUnicodeEscape(c, true)
+	ofst := l.src.Ofst()
+	r, escape, err := l.readUnicodeEscape(c, true)
+	if err == nil && escape && (r == '\\' || !IsIdStart(r)) {
+		err = &FixedOfstErr{ERR_INVALID_UNICODE_ESCAPE, ofst - 1}
+	}
+	return r, escape, err
 }
 
 func (l *Lexer) readIdPart(jsx bool) (rs []byte, containsEscape bool, err *FixedOfstErr) {
@@ -1605,7 +1616,11 @@ func (l *Lexer) readIdPart(jsx bool) (rs []byte, containsEscape bool, err *Fixed
 	for {
 		c := l.src.Peek()
 		if IsIdStart(c) || IsIdPart(c) || (jsx && c == '-') {
+			ofst := l.src.Ofst()
 			c, escape, err := l.readUnicodeEscape(l.src.Read(), true)
+			if err == nil && escape && (c == '\\' || !IsIdStart(c) && !IsIdPart(c)) {
+				err = &FixedOfstErr{ERR_INVALID_UNICODE_ESCAPE, ofst}
+			}
 			if escape && !containsEscape {
 				containsEscape = escape
 			}
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index e028f32..a59b10c 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -254,6 +254,9 @@ func (p *Parser) Prog() (Node, error) {
 	if p.badShorthand != nil {
 		return nil, p.errorAtLoc(p.badShorthand.Range(), ERR_UNEXPECTED_TOKEN)
 	}
+	if len(p.hangingDecorators) > 0 {
+		return nil, p.errorAtLoc(p.hangingDecorators[0].Range(), ERR_DECORATOR_INVALID_POSITION)
+	}
 	if len(p.coverInits) > 0 {
 		return nil, p.errorAtLoc(p.coverInits[0].opLoc, ERR_SHORTHAND_PROP_ASSIGN_NOT_IN_DESTRUCT)
 	}
@@ -272,6 +275,15 @@ func (p *Parser) acceptCoverInits(rng span.Range) {
 	p.coverInits = rest
 }
 
+// `L: function f(){}` is not permitted to be the body of other statements
+func isLabelledFn(node Node) bool {
+	label, ok := node.(*LabelStmt)
+	for ; ok; label, ok = node.(*LabelStmt) {
+		node = label.body
+	}
+	return node.Type() == N_STMT_FN
+}
+
 func isPlainFn(node Node) bool {
 	fn, ok := node.(*FnDec)
 	return ok && !fn.async && !fn.generator
@@ -1150,7 +1162,7 @@ func (p *Parser) classDec(expr bool, canNameOmitted bool, declare bool, abstract
 			if err != nil {
 				return nil, err
 			}
-			if name := id.(*Ident).val; name == "eval" || name == "arguments" {
+			if name := id.(*Ident).val; name == "eval" || name == "arguments" || name == "await" && p.feat&FEAT_MODULE != 0 && p.feat&FEAT_STRICT != 0 {
 				return nil, p.errorAtLoc(id.Range(), fmt.Sprintf(ERR_TPL_BINDING_RESERVED_WORD, name))
 			}
 		}
@@ -1186,9 +1198,13 @@ func (p *Parser) classDec(expr bool, canNameOmitted bool, declare bool, abstract
 	if p.lexer.Peek().value == T_EXTENDS {
 		p.lexer.Next()
 		scope := p.scope()
-		scope.AddKind(SPK_CLASS_EXTEND_SUPER)
+		strict := scope.IsKind(SPK_STRICT)
+		scope.AddKind(SPK_CLASS_EXTEND_SUPER).AddKind(SPK_STRICT)
 		super, err = p.lhs(false)
 		scope.EraseKind(SPK_CLASS_EXTEND_SUPER)
+		if !strict {
+			scope.EraseKind(SPK_STRICT)
+		}
 		if err != nil {
 			return nil, err
 		}
@@ -1216,6 +1232,8 @@ func (p *Parser) classDec(expr bool, canNameOmitted bool, declare bool, abstract
 	}
 	if super != nil {
 		scope.AddKind(SPK_CLASS_HAS_SUPER)
+	} else {
+		scope.EraseKind(SPK_CLASS_HAS_SUPER)
 	}
 
 	body, err := p.classBody(declare, super != nil)
@@ -1788,7 +1806,7 @@ func (p *Parser) classElemName() (Node, span.Range, error) {
 }
 
 func (p *Parser) staticBlock(static span.Range) (Node, error) {
-	block, err := p.blockStmt(true, SPK_NONE)
+	block, err := p.blockStmt(true, SPK_STATIC_BLOCK)
 	if err != nil {
 		return nil, err
 	}
@@ -1818,16 +1836,22 @@ func (p *Parser) withStmt() (Node, error) {
 		return nil, err
 	}
 
+	scope := p.scope()
 	tok := p.lexer.PeekStmtBegin()
+	scope.AddKind(SPK_INTERIM)
 	body, err := p.stmt()
+	scope.EraseKind(SPK_INTERIM)
 	if err != nil {
 		if err == errEof {
 			return nil, p.errorTok(tok)
 		}
 		return nil, err
 	}
+	if body.Type() == N_STMT_FN || isLabelledFn(body) {
+		return nil, p.errorAtLoc(body.Range(), ERR_FN_IN_SINGLE_STMT_CTX)
+	}
 
-	if p.scope().IsKind(SPK_STRICT) {
+	if scope.IsKind(SPK_STRICT) {
 		return nil, p.errorAtLoc(p.finRng(rng), ERR_WITH_STMT_IN_STRICT)
 	}
 
@@ -2003,8 +2027,7 @@ func (p *Parser) retStmt() (Node, error) {
 		return nil, err
 	}
 
-	scope := p.scope()
-	if !scope.IsKind(SPK_FUNC) && !scope.IsKind(SPK_FUNC_INDIRECT) {
+	if !p.scope().inFn() {
 		return nil, p.errorAtLoc(rng, ERR_ILLEGAL_RETURN)
 	}
 
@@ -2271,6 +2294,10 @@ func (p *Parser) ifStmt() (Node, error) {
 		return nil, err
 	}
 
+	if cons.Type() == N_STMT_LABEL && isLabelledFn(cons) {
+		return nil, p.errorAtLoc(cons.Range(), ERR_FN_IN_SINGLE_STMT_CTX)
+	}
+
 	var alt Node
 	if p.lexer.PeekStmtBegin().value == T_ELSE {
 		p.lexer.Next()
@@ -2287,6 +2314,9 @@ func (p *Parser) ifStmt() (Node, error) {
 			return nil, err
 		}
 	}
+	if alt != nil && alt.Type() == N_STMT_LABEL && isLabelledFn(alt) {
+		return nil, p.errorAtLoc(alt.Range(), ERR_FN_IN_SINGLE_STMT_CTX)
+	}
 	return &IfStmt{N_STMT_IF, p.finRng(rng), test, cons, alt}, nil
 }
 
@@ -2408,6 +2438,7 @@ func (p *Parser) forStmt() (Node, error) {
 	scope := p.symtab.EnterScope(false, false, true)
 	scope.AddKind(SPK_LOOP_DIRECT)
 	tok = p.lexer.Peek()
+	isLet := IsName(tok, "let", false)
 
 	var init Node
 	var err error
@@ -2425,6 +2456,7 @@ func (p *Parser) forStmt() (Node, error) {
 	}
 	scope.EraseKind(SPK_NOT_IN)
 
+	beginWithLet := init != nil && init.Type() != N_STMT_VAR_DEC && isLet
 	tok = p.lexer.Peek()
 	isIn := IsName(tok, "in", false)
 	isOf := IsName(tok, "of", false)
@@ -2436,6 +2468,8 @@ func (p *Parser) forStmt() (Node, error) {
 		return nil, p.errorTok(tok)
 	} else if isOf && !await && init.Type() == N_NAME && init.(*Ident).val == "async" {
 		return nil, p.errorAtLoc(init.Range(), ERR_LHS_OF_FOR_OF_CANNOT_ASYNC)
+	} else if isOf && beginWithLet {
+		return nil, p.errorAtLoc(init.Range(), ERR_UNEXPECTED_TOKEN)
 	}
 
 	if isIn || isOf {
@@ -2661,8 +2695,13 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 
 	ps := p.scope()
 	idScope := ps
-	if !ps.IsKind(SPK_STRICT) {
-		idScope = ps.OuterFn()
+	if expr {
+		// names of the function expressions belong to themselves
+		idScope = &Scope{Kind: ps.Kind}
+		idScope.EraseKind(SPK_ASYNC).EraseKind(SPK_GENERATOR)
+		if async != nil {
+			idScope.AddKind(SPK_ASYNC)
+		}
 	}
 
 	var id Node
@@ -2708,6 +2747,9 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	} else if fn {
 		p.lexer.EraseMode(LM_ASYNC)
 	}
+	if !fn {
+		scope.AddKind(SPK_ARROW)
+	}
 	// 'yield' as function names
 	if generator {
 		p.scope().AddKind(SPK_GENERATOR)
@@ -2882,6 +2924,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	if id != nil {
 		name := id.(*Ident).val
 		if p.isProhibitedName(idScope, name, isStrict, true, false, isStrict) ||
+			name == "await" && p.feat&FEAT_MODULE != 0 && p.feat&FEAT_STRICT != 0 ||
 			(expr && generator && name == "yield") || (expr && async != nil && name == "await") {
 			return nil, p.errorAtLoc(id.Range(), fmt.Sprintf(ERR_TPL_UNEXPECTED_TOKEN_TYPE, name))
 		}
@@ -3412,10 +3455,10 @@ func (p *Parser) isProhibitedName(scope *Scope, name string, withStrict bool, lV
 	if strict && ok {
 		return true
 	}
-	if strict && lVal && (name == "eval" || name == "arguments") || field && name == "arguments" {
+	if strict && lVal && (name == "eval" || name == "arguments") || field && name == "arguments" || name == "arguments" && scope.inClassInit() {
 		return true
 	}
-	return scope.IsKind(SPK_ASYNC) && name == "await"
+	return name == "await" && (scope.IsKind(SPK_ASYNC) || scope.inStaticBlock())
 }
 
 // words which are reserved anywhere though they are not tokenized as keywords
@@ -3437,7 +3480,7 @@ func (p *Parser) identStrict(scope *Scope, forceStrict bool, binding bool) (Node
 	name := p.TokText(tok)
 	rng := p.finRng(tok.rng)
 
-	if p.isProhibitedName(scope, name, true, false, false, forceStrict) {
+	if p.isProhibitedName(scope, name, true, false, false, forceStrict) || name == "yield" && scope.IsKind(SPK_GENERATOR) {
 		if binding {
 			return nil, p.errorAtLoc(rng, fmt.Sprintf(ERR_TPL_BINDING_RESERVED_WORD, name))
 		}
@@ -4275,11 +4318,11 @@ func (p *Parser) assignExpr(checkLhs bool, notGT bool, notHook bool, notColon bo
 	}
 	op := assign.value
 	opLoc := assign.rng
-	if op == T_ASSIGN {
+	if lt := lhs.Type(); op == T_ASSIGN && (lt == N_LIT_OBJ || lt == N_LIT_ARR) {
 		p.acceptCoverInits(span.Range{Lo: lhs.Range().Lo, Hi: opLoc.Lo})
 	}
 
-	rhs, err := p.assignExpr(checkLhs, notGT, false, false)
+	rhs, err := p.assignExpr(true, notGT, false, false)
 	if err != nil {
 		return nil, err
 	}
@@ -4502,7 +4545,7 @@ func (p *Parser) unaryExpr(typArgs Node, typArgsLoc span.Range, notColon bool) (
 		}
 
 		scope := p.scope()
-		if scope.IsKind(SPK_STRICT) && tok.value == T_DELETE && arg.Type() == N_NAME {
+		if scope.IsKind(SPK_STRICT) && op == T_DELETE && unParenAll(arg).Type() == N_NAME {
 			return nil, p.errorAtLoc(arg.Range(), ERR_DELETE_LOCAL_IN_STRICT)
 		}
 
@@ -4654,9 +4697,10 @@ func (p *Parser) newExpr(nested bool) (Node, error) {
 		if id.val != "target" {
 			return nil, p.errorAtLoc(id.Range(), ERR_INVALID_META_PROP)
 		}
-		if !(scope.IsKind(SPK_CLASS) || scope.IsKind(SPK_CLASS_INDIRECT) ||
-			scope.IsKind(SPK_ARROW) && scope.IsKind(SPK_FUNC_INDIRECT) ||
-			(!scope.IsKind(SPK_ARROW) && (scope.IsKind(SPK_FUNC) || scope.IsKind(SPK_FUNC_INDIRECT)))) {
+		if id.ContainsEscape() {
+			return nil, p.errorAtLoc(id.Range(), ERR_META_PROP_CONTAINS_ESCAPE)
+		}
+		if !scope.hasNewTarget() {
 			return nil, p.errorAtLoc(rng, ERR_META_PROP_OUTSIDE_FN)
 		}
 
@@ -5535,7 +5579,7 @@ func (p *Parser) checkArg(arg Node, spread bool, simplicity bool) error {
 	case N_EXPR_ASSIGN:
 		if simplicity {
 			n := arg.(*AssignExpr)
-			if n.op != T_ASSIGN && !p.isSimpleLVal(n.lhs, false, false, true, false) {
+			if (n.op != T_ASSIGN || n.lhs.Type() == N_NAME) && !p.isSimpleLVal(n.lhs, false, false, true, false) {
 				return p.errorAtLoc(n.lhs.Range(), ERR_ASSIGN_TO_RVALUE)
 			}
 		}
@@ -6235,6 +6279,13 @@ func (p *Parser) parenExpr(typArgs Node, notColon bool) (Node, error) {
 	return node, nil
 }
 
+func unParenAll(expr Node) Node {
+	for expr.Type() == N_EXPR_PAREN {
+		expr = expr.(*ParenExpr).Expr()
+	}
+	return expr
+}
+
 func UnParen(expr Node) Node {
 	if expr.Type() == N_EXPR_PAREN {
 		loc := expr.Range()
diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index 3233f40..92c6951 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -26,6 +26,7 @@ const (
 	SPK_CLASS_INDIRECT
 	SPK_CLASS_EXTEND_SUPER
 	SPK_CLASS_HAS_SUPER
+	SPK_STATIC_BLOCK
 	SPK_CTOR
 	SPK_LEXICAL_DEC
 	SPK_SHORTHAND_PROP
@@ -735,3 +736,60 @@ func (s *Scope) inCtor() bool {
 	}
 	return false
 }
+
+// reports whether the scope is in the body of function, static blocks of class are not such bodies
+func (s *Scope) inFn() bool {
+	for ; s != nil; s = s.Up {
+		if s.IsKind(SPK_CLASS) {
+			return false
+		}
+		if s.IsKind(SPK_FUNC) {
+			return true
+		}
+	}
+	return false
+}
+
+// reports whether `new.target` is permitted in the scope, arrow functions and the computed keys of class
+// share it with the scope they are nested in
+func (s *Scope) hasNewTarget() bool {
+	for ; s != nil; s = s.Up {
+		if s.IsKind(SPK_CLASS) {
+			if !s.IsKind(SPK_PROP_NAME) {
+				return true
+			}
+		} else if s.IsKind(SPK_FUNC) && !s.IsKind(SPK_ARROW) {
+			return true
+		}
+	}
+	return false
+}
+
+// reports whether the scope is in the static block of class, not in the functions nested in it except for
+// the arrow functions
+func (s *Scope) inStaticBlock() bool {
+	for ; s != nil; s = s.Up {
+		if s.IsKind(SPK_STATIC_BLOCK) {
+			return true
+		}
+		if s.IsKind(SPK_CLASS) && !s.IsKind(SPK_PROP_NAME) || s.IsKind(SPK_FUNC) && !s.IsKind(SPK_ARROW) && !s.IsKind(SPK_CLASS) {
+			return false
+		}
+	}
+	return false
+}
+
+// reports whether the scope is in the initializers of fields or the static blocks of class, not in the functions
+// nested in them except for the arrow functions
+func (s *Scope) inClassInit() bool {
+	for ; s != nil; s = s.Up {
+		if s.IsKind(SPK_CLASS) {
+			if !s.IsKind(SPK_PROP_NAME) {
+				return true
+			}
+		} else if s.IsKind(SPK_FUNC) && !s.IsKind(SPK_ARROW) {
+			return false
+		}
+	}
+	return false
+}
-- 
2.43.0


From b5cc319333d626d1bc6cf3f58623f302ef8efc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:18 +0000
Subject: [PATCH 28/62] fix: quoted and escaped names are not the keywords of
 accessors

---
 ecma/parser/parser.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index a59b10c..c705057 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1609,7 +1609,8 @@ func (p *Parser) classElem(inDeclare bool) (Node, error) {
 			key.(NodeWithTypInfo).SetTypInfo(ti)
 		}
 
-		isField, ahead = p.isField(false, name == "get" || name == "set")
+		accessor := (name == "get" || name == "set") && key.Type() == N_NAME && !ahead.ContainsEscape()
+		isField, ahead = p.isField(false, accessor)
 		if isField {
 			return p.field(key, beginLoc, staticLoc, accMod, beginLoc, abstractLoc, readonlyLoc, overrideLoc, declareLoc, inDeclare)
 		}
@@ -1634,9 +1635,9 @@ func (p *Parser) classElem(inDeclare bool) (Node, error) {
 			return p.method(propRng, key, accMod, span.Range{}, false, kd, false, false, true, true, static, beginLoc, !declareLoc.Empty(), !abstractLoc.Empty(), !overrideLoc.Empty(), nil)
 		}
 
-		if name == "get" {
+		if accessor && name == "get" {
 			kd = PK_GETTER
-		} else if name == "set" {
+		} else if accessor {
 			kd = PK_SETTER
 		} else {
 			return nil, p.errorTok(ahead)
@@ -4003,7 +4004,7 @@ func (p *Parser) propName(allowNamePVT bool, maybeMethod bool, tsRough bool) (No
 		return nil, span.Range{}, p.errorTok(tok)
 	}
 
-	getter := keyName == "get" || keyName == "set"
+	getter := (keyName == "get" || keyName == "set") && key.Type() == N_NAME
 	isField, ahead := p.isField(false, getter)
 	if isField || !maybeMethod {
 		return key, computeLoc, nil
@@ -4011,10 +4012,10 @@ func (p *Parser) propName(allowNamePVT bool, maybeMethod bool, tsRough bool) (No
 
 	kd := PK_INIT
 	if getter {
-		if tok.ContainsEscape() {
-			return nil, span.Range{}, p.errorAt(tok.value, tok.rng, ERR_ESCAPE_IN_KEYWORD)
-		}
 		if ahead.value != T_PAREN_L {
+			if key.(*Ident).ContainsEscape() {
+				return nil, span.Range{}, p.errorAtLoc(rng, ERR_ESCAPE_IN_KEYWORD)
+			}
 			key = nil
 			if keyName == "get" {
 				kd = PK_GETTER
-- 
2.43.0


From 7b18f4f5a6fe1715e6441c9638004cd42e3f0b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:54 +0000
Subject: [PATCH 29/62] fix: decorators of the fields in js, decorators which
 are followed by nothing, in operators after async arrow functions in the head
 of for statements

---
 ecma/parser/parser.go | 11 +++++++++++
 ecma/parser/ts.go     |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index c705057..3eefa13 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1699,6 +1699,8 @@ func (p *Parser) field(key Node, begin, static span.Range, accMod ACC_MOD, begin
 			// use clone here to decouple the typInfo of key and method
 			ti = wt.TypInfo().Clone()
 		}
+	} else {
+		ti = p.newTypInfo(N_FIELD)
 	}
 
 	if !begin.Empty() {
@@ -2855,6 +2857,9 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 				return nil, err
 			}
 		} else if arrow {
+			if ps.IsKind(SPK_NOT_IN) {
+				scope.AddKind(SPK_NOT_IN)
+			}
 			if body, err = p.assignExpr(true, false, false, false); err != nil {
 				return nil, err
 			}
@@ -3164,11 +3169,15 @@ func (p *Parser) stmts(terminal TokenValue) ([]Node, error) {
 	stmts := make([]Node, 0, 20)
 	prologue := 0 // the index in above `stmts` contains the last stmt in Directive Prologue
 
+	alone := false // whether the decorators just parsed are not followed by class
 	scope := p.scope()
 	for {
 		tok := p.lexer.PeekStmtBegin()
 		if terminal != T_ILLEGAL {
 			if tok.value == terminal {
+				if alone {
+					return nil, p.errorAtLoc(p.hangingDecorators[0].Range(), ERR_DECORATOR_INVALID_POSITION)
+				}
 				p.lexer.Next()
 				break
 			} else if tok.value == T_EOF {
@@ -3183,6 +3192,8 @@ func (p *Parser) stmts(terminal TokenValue) ([]Node, error) {
 			return nil, err
 		}
 
+		alone = stmt == nil
+
 		if len(cmts) > 0 {
 			p.prevCmts[stmt] = cmts
 		}
diff --git a/ecma/parser/ts.go b/ecma/parser/ts.go
index 95f1405..6f5fc91 100644
--- a/ecma/parser/ts.go
+++ b/ecma/parser/ts.go
@@ -37,7 +37,7 @@ func (e ErrTypArgMissingGT) Error() string {
 var errTypArgMaybeJsx = errors.New("maybe jsx")
 
 func (p *Parser) newTypInfo(typ NodeType) *TypInfo {
-	if p.ts || (p.feat&FEAT_DECORATOR != 0 && (typ == N_STMT_CLASS || typ == N_METHOD)) {
+	if p.ts || (p.feat&FEAT_DECORATOR != 0 && (typ == N_STMT_CLASS || typ == N_METHOD || typ == N_FIELD)) {
 		return NewTypInfo()
 	}
 	return nil
-- 
2.43.0


From 588deeb9755309d33865b6e48238a6f0ca3861a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:48 +0000
Subject: [PATCH 30/62] fix: await in the default values of the params of async
 functions

---
 ecma/parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 3eefa13..1543cde 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4497,7 +4497,7 @@ func (p *Parser) awaitExpr(tok *Token) (Node, error) {
 			}
 			return nil, p.errorTok(ahead)
 		}
-		if scope.IsKind(SPK_ASYNC) && !scope.IsKind(SPK_FORMAL_PARAMS) {
+		if scope.IsKind(SPK_ASYNC) && !(scope.IsKind(SPK_FORMAL_PARAMS) && scope.IsKind(SPK_ARROW)) {
 			return nil, p.errorTok(ahead)
 		}
 		return &Ident{N_NAME, p.finRng(rng), "await", false, tok.ContainsEscape(), span.Range{}, true, p.newTypInfo(N_NAME)}, nil
@@ -5146,6 +5146,9 @@ func (p *Parser) checkDefaultVal(val Node, yield bool, destruct bool, field bool
 		if err := p.checkDefaultVal(n.alt, yield, destruct, field); err != nil {
 			return err
 		}
+	case N_EXPR_ASSIGN:
+		n := val.(*AssignExpr)
+		return p.checkDefaultVal(n.rhs, yield, destruct, field)
 	case N_PAT_ASSIGN:
 		n := val.(*AssignPat)
 		if err := p.checkDefaultVal(n.lhs, yield, destruct, field); err != nil {
-- 
2.43.0


From dcfd88728c200a51708ca0ca4d9a9f2b7fb520a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:02 +0000
Subject: [PATCH 31/62] fix: JSX text, entities, names and spreads; endless
 loops on unterminated templates and JSX children; every syntax error carries
 a position

---
 ecma/estree/convert.go | 21 ++++++----
 ecma/parser/jsx.go     |  9 +++--
 ecma/parser/lexer.go   | 91 ++++++++++++++++++++++++++++--------------
 ecma/parser/parser.go  | 13 +++++-
 4 files changed, 93 insertions(+), 41 deletions(-)

diff --git a/ecma/estree/convert.go b/ecma/estree/convert.go
index 6631a00..c8cb4c9 100644
--- a/ecma/estree/convert.go
+++ b/ecma/estree/convert.go
@@ -1409,13 +1409,20 @@ func Convert(node parser.Node, ctx *ConvertCtx) Node {
 		}
 	case parser.N_JSX_MEMBER:
 		node := node.(*parser.JsxMember)
+		prop := node.Prop().(*parser.Ident)
 		return &JSXMemberExpression{
-			Type:     "JSXMemberExpression",
-			Start:    int(node.Range().Lo),
-			End:      int(node.Range().Hi),
-			Loc:      locOfNode(node, ctx.Parser.Source(), ctx),
-			Object:   Convert(node.Obj(), ctx),
-			Property: Convert(node.Prop(), ctx),
+			Type:   "JSXMemberExpression",
+			Start:  int(node.Range().Lo),
+			End:    int(node.Range().Hi),
+			Loc:    locOfNode(node, ctx.Parser.Source(), ctx),
+			Object: Convert(node.Obj(), ctx),
+			Property: &JSXIdentifier{
+				Type:  "JSXIdentifier",
+				Start: int(prop.Range().Lo),
+				End:   int(prop.Range().Hi),
+				Loc:   locOfNode(prop, ctx.Parser.Source(), ctx),
+				Name:  prop.Val(),
+			},
 		}
 	case parser.N_JSX_ELEM:
 		node := node.(*parser.JsxElem)
@@ -1522,7 +1529,7 @@ func Convert(node parser.Node, ctx *ConvertCtx) Node {
 			Start:    int(node.Range().Lo),
 			End:      int(node.Range().Hi),
 			Loc:      locOfNode(node, ctx.Parser.Source(), ctx),
-			Argument: Convert(node.Arg(), ctx),
+			Argument: Convert(node.Arg().(*parser.Spread).Arg(), ctx),
 		}
 	case parser.N_JSX_CHILD_SPREAD:
 		node := node.(*parser.JsxSpreadChild)
diff --git a/ecma/parser/jsx.go b/ecma/parser/jsx.go
index 65b7d82..3a63efe 100644
--- a/ecma/parser/jsx.go
+++ b/ecma/parser/jsx.go
@@ -12,11 +12,12 @@ func (p *Parser) jsxMember(obj Node, path string) (Node, string, error) {
 		av := ahead.value
 		if av == T_DOT {
 			p.lexer.Next()
-			prop, err := p.ident(nil, false)
+			id, name, err := p.jsxId()
 			if err != nil {
 				return nil, "", err
 			}
-			path = path + "." + prop.val
+			prop := &Ident{N_NAME, id.Range(), name, false, false, span.Range{}, false, p.newTypInfo(N_NAME)}
+			path = path + "." + name
 			obj = &JsxMember{N_JSX_MEMBER, p.finRng(obj.Range()), obj, prop, p.newTypInfo(N_JSX_MEMBER)}
 		} else {
 			break
@@ -39,7 +40,7 @@ func (p *Parser) jsxNsExpr(ns Node, path string) (Node, string, error) {
 func (p *Parser) jsxId() (Node, string, error) {
 	tok := p.lexer.Next()
 	tv := tok.value
-	if tv != T_NAME {
+	if tv != T_NAME && !tok.IsKw() {
 		return nil, "", p.errorTok(tok)
 	}
 
@@ -351,7 +352,7 @@ func (p *Parser) jsx(root bool, opening bool) (Node, error) {
 				children = append(children, child)
 			} else if av == T_EOF {
 				return nil, p.errorAtLoc(ahead.rng, ERR_UNTERMINATED_JSX_CONTENTS)
-			} else if av == T_ILLEGAL {
+			} else {
 				return nil, p.errorTok(ahead)
 			}
 		}
diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 67f260f..d2d36cf 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -4,6 +4,7 @@ import (
 	"container/list"
 	"fmt"
 	"strconv"
+	"strings"
 	"unicode"
 	"unicode/utf8"
 
@@ -370,7 +371,7 @@ func (l *Lexer) readTokWithComment() *Token {
 		l.src.Read()
 		l.PushMode(LM_NONE, true)
 		return l.finToken(tok, T_BRACE_L)
-	} else if c == '}' {
+	} else if c == '}' && l.IsMode(LM_JSX) {
 		l.src.Read()
 		l.PopMode()
 		return l.finToken(tok, T_BRACE_R)
@@ -589,8 +590,6 @@ func (l *Lexer) readTplChs() (text []byte, fin bool, ofst, pos uint32, err strin
 				return
 			}
 			text = utf8.AppendRune(text, r)
-		} else if c == utf8.RuneError {
-			errEscape = ERR_BAD_RUNE
 		} else if c == span.EOF {
 			err = ERR_UNTERMINATED_TPL
 			return
@@ -1200,15 +1199,28 @@ func (l *Lexer) readJsxStr() *Token {
 	open := l.src.Read()
 
 	tok.txt.Lo = l.src.Ofst()
+	var buf []byte
 	for {
+		if l.src.AheadIsCh('&') {
+			if buf == nil {
+				buf = []byte(l.src.Text(tok.txt.Lo, l.src.Ofst()))
+			}
+			buf = append(buf, l.readHTMLEntity()...)
+			continue
+		}
 		c := l.src.Read()
 		if c == span.EOF {
 			return l.errTokMsg(tok, ERR_UNTERMINATED_STR)
 		} else if c == open {
 			tok.txt.Hi = l.src.Ofst() - 1
 			break
+		} else if buf != nil {
+			buf = utf8.AppendRune(buf, c)
 		}
 	}
+	if buf != nil {
+		tok.text = util.Bytes2str(&buf)
+	}
 
 	tok.ext = &TokExtStr{open, false}
 	return l.finToken(tok, T_STRING)
@@ -1708,6 +1720,47 @@ func (l *Lexer) readHex4Digits(id bool, start uint32) (rune, *FixedOfstErr) {
 	return rr, nil
 }
 
+// reads the entity which `&` begins, `&` stands for itself if it does not begin any entity
+func (l *Lexer) readHTMLEntity() []byte {
+	l.src.Read() // `&`
+
+	begin := l.src.Ofst()
+	limit := begin + uint32(MaxHTMLEntityName)
+	if n := uint32(l.src.Len()); limit > n {
+		limit = n
+	}
+	txt := l.src.Text(begin, limit)
+	end := strings.IndexByte(txt, ';')
+	if end <= 0 {
+		return []byte{'&'}
+	}
+
+	name := txt[:end]
+	var rs []byte
+	if name[0] == '#' {
+		base := 10
+		num := name[1:]
+		if strings.HasPrefix(num, "x") {
+			base = 16
+			num = num[1:]
+		}
+		n, err := strconv.ParseUint(num, base, 32)
+		if err != nil || n > unicode.MaxRune {
+			return []byte{'&'}
+		}
+		rs = utf8.AppendRune(rs, rune(n))
+	} else if ed, ok := HTMLEntities["&"+name+";"]; ok {
+		rs = ed.Bytes
+	} else {
+		return []byte{'&'}
+	}
+
+	for l.src.Ofst() <= begin+uint32(end) {
+		l.src.Read()
+	}
+	return rs
+}
+
 func (l *Lexer) readJSXTxt() *Token {
 	tok := l.newToken()
 
@@ -1719,35 +1772,15 @@ func (l *Lexer) readJSXTxt() *Token {
 	}
 
 	rs := make([]byte, 0)
-
-	i := 0
-	entity := make([]byte, 0, MaxHTMLEntityName)
-
 	for {
 		c := l.src.Peek()
-		if c == '{' || c == '<' || c == span.EOF {
-			if i == 0 && c == span.EOF {
-				l.src.Read()
-				return l.finToken(tok, T_EOF)
-			}
-			break
-		} else if c == '&' || i > 0 {
-			if c == '&' {
-			}
-
+		if c == span.EOF {
 			l.src.Read()
-
-			i += 1
-			entity = utf8.AppendRune(entity, c)
-			if c == ';' {
-				key := string(entity[0:i])
-				if ed, ok := HTMLEntities[key]; ok {
-					rs = append(rs, ed.Bytes...)
-				} else {
-					return l.errTokMsg(tok, fmt.Sprintf(ERR_TPL_JSX_UNDEFINED_HTML_ENTITY, key))
-				}
-				i = 0
-			}
+			return l.finToken(tok, T_EOF)
+		} else if c == '{' || c == '<' {
+			break
+		} else if c == '&' {
+			rs = append(rs, l.readHTMLEntity()...)
 		} else {
 			rs = utf8.AppendRune(rs, l.src.Read())
 		}
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 1543cde..c992f3a 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -236,7 +236,7 @@ func (p *Parser) Prog() (Node, error) {
 
 	stmts, err := p.stmts(T_ILLEGAL)
 	if err != nil {
-		return nil, err
+		return nil, p.positioned(err)
 	}
 
 	pg.stmts = stmts
@@ -264,6 +264,17 @@ func (p *Parser) Prog() (Node, error) {
 	return pg, nil
 }
 
+// the errors used to communicate between the methods of parser do not have positions
+func (p *Parser) positioned(err error) error {
+	if err == errEof || err == errTypArgMaybeJsx {
+		return p.errorTok(p.lexer.Peek())
+	}
+	if e, ok := err.(ErrTypArgMissingGT); ok {
+		return p.errorAtLoc(e.rng, ERR_UNEXPECTED_TOKEN)
+	}
+	return err
+}
+
 // the shorthand properties in the given range are in pattern
 func (p *Parser) acceptCoverInits(rng span.Range) {
 	rest := p.coverInits[:0]
-- 
2.43.0


From c4137095557378a77d56424f0d2185f363dddb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:08 +0000
Subject: [PATCH 32/62] fix: repeated default clauses, names exported twice by
 export-all-as, repeated private accessors, computed names of static members,
 functions as branches within loops

---
 ecma/parser/parser.go | 27 +++++++++++++++++----------
 ecma/parser/symtab.go |  1 +
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index c992f3a..59e0b01 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -353,6 +353,8 @@ func (p *Parser) checkExp(exps []*ExportDec) error {
 				s := spec.(*ExportSpec)
 				if s.id != nil && !s.tsTyp {
 					subnames = append(subnames, s.id)
+				} else if s.ns {
+					subnames = append(subnames, s.local)
 				}
 			}
 		}
@@ -500,7 +502,7 @@ func (p *Parser) stmt() (node Node, err error) {
 		if scope.IsKind(SPK_INTERIM) {
 			// `if (morning) function a(){}` is legal
 			// `for (morning;;) function a(){}` is illegal
-			if typ == N_STMT_FN && (scope.IsKind(SPK_STRICT) || scope.IsKind(SPK_LOOP_DIRECT) || !isPlainFn(node)) {
+			if typ == N_STMT_FN && (scope.IsKind(SPK_STRICT) || scope.IsKind(SPK_LOOP_DIRECT) && !scope.IsKind(SPK_IF_BRANCH) || !isPlainFn(node)) {
 				return nil, p.errorAtLoc(node.Range(), ERR_FN_IN_SINGLE_STMT_CTX)
 			}
 		}
@@ -1357,7 +1359,12 @@ func (p *Parser) classBody(declare bool, hasSuper bool) (Node, error) {
 				}
 			}
 			if elem.Type() == N_FIELD || elem.(*Method).HasBody() {
-				pvtNames[name] = elem
+				if _, ok := pvtNames[name]; ok {
+					// the pair of getter/setter is completed
+					pvtNames[name] = nil
+				} else {
+					pvtNames[name] = elem
+				}
 
 				ref := NewRef()
 				ref.Id = key.(*Ident)
@@ -1799,9 +1806,9 @@ func (p *Parser) field(key Node, begin, static span.Range, accMod ACC_MOD, begin
 	}
 
 	isStatic := !static.Empty()
-	if isStatic && p.isName(key, "prototype", false, true) {
+	if isStatic && compute.Empty() && p.isName(key, "prototype", false, true) {
 		return nil, p.errorAtLoc(key.Range(), ERR_STATIC_PROP_PROTOTYPE)
-	} else if p.isName(key, "constructor", false, true) {
+	} else if compute.Empty() && p.isName(key, "constructor", false, true) {
 		return nil, p.errorAtLoc(key.Range(), ERR_CTOR_CANNOT_BE_Field)
 	}
 
@@ -2227,7 +2234,7 @@ func (p *Parser) switchStmt() (Node, error) {
 			return nil, err
 		}
 		if caseClause != nil {
-			metDefault = caseClause.test == nil
+			metDefault = metDefault || caseClause.test == nil
 			cases = append(cases, caseClause)
 		} else {
 			break
@@ -2297,9 +2304,9 @@ func (p *Parser) ifStmt() (Node, error) {
 	scope := p.scope()
 	tok := p.lexer.PeekStmtBegin()
 
-	scope.AddKind(SPK_INTERIM)
+	scope.AddKind(SPK_INTERIM).AddKind(SPK_IF_BRANCH)
 	cons, err := p.stmt()
-	scope.EraseKind(SPK_INTERIM)
+	scope.EraseKind(SPK_INTERIM).EraseKind(SPK_IF_BRANCH)
 
 	if err != nil {
 		if err == errEof {
@@ -2317,9 +2324,9 @@ func (p *Parser) ifStmt() (Node, error) {
 		p.lexer.Next()
 		tok := p.lexer.PeekStmtBegin()
 
-		scope.AddKind(SPK_INTERIM)
+		scope.AddKind(SPK_INTERIM).AddKind(SPK_IF_BRANCH)
 		alt, err = p.stmt()
-		scope.EraseKind(SPK_INTERIM)
+		scope.EraseKind(SPK_INTERIM).EraseKind(SPK_IF_BRANCH)
 
 		if err != nil {
 			if err == errEof {
@@ -6725,7 +6732,7 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 	}
 
 	if inclass {
-		if static && p.isName(key, "prototype", false, true) {
+		if static && compute.Empty() && p.isName(key, "prototype", false, true) {
 			return nil, p.errorAtLoc(key.Range(), ERR_STATIC_PROP_PROTOTYPE)
 		}
 
diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index 92c6951..e03c617 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -40,6 +40,7 @@ const (
 	SPK_TS_MODULE_INDIRECT
 	SPK_TS_INTERFACE
 	SPK_TS_MAY_INTRINSIC
+	SPK_IF_BRANCH
 )
 
 type BindKind uint8
-- 
2.43.0


From 0e6546ee08a512f105cc92b544d73b83ee23ec00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:52 +0000
Subject: [PATCH 33/62] fix: \u is an identity escape in regexps without the
 flag u

---
 ecma/parser/lexer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index d2d36cf..6168ec5 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"bytes"
 	"container/list"
 	"fmt"
 	"strconv"
@@ -1010,6 +1011,7 @@ func (l *Lexer) readRegexp(tok *Token) *Token {
 	couples := list.New()
 	rng := false
 	rngLen := 0
+	var escErr *FixedOfstErr
 
 	for {
 		c := l.src.Peek()
@@ -1024,9 +1026,10 @@ func (l *Lexer) readRegexp(tok *Token) *Token {
 			nc := l.src.Peek()
 			if nc == 'u' {
 				l.src.Read()
+				// `\u` is an identity escape unless the flag `u` is set
 				_, err := l.readUnicodeEscapeSeq(false, ofst)
-				if err != nil {
-					return l.errTokOfst(tok, err.msg, err.ofst)
+				if err != nil && escErr == nil {
+					escErr = err
 				}
 			} else if !span.IsLineTerminator(nc) {
 				l.src.Read()
@@ -1079,6 +1082,9 @@ func (l *Lexer) readRegexp(tok *Token) *Token {
 		}
 		i = len(fs)
 	}
+	if escErr != nil && bytes.IndexByte(fs, 'u') >= 0 {
+		return l.errTokOfst(tok, escErr.msg, escErr.ofst)
+	}
 
 	if l.feat&FEAT_CHK_REGEXP_FLAGS != 0 {
 		for _, f := range fs {
-- 
2.43.0


From 576d317c501137282a1141d76fe5b6f24c2844d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:30 +0000
Subject: [PATCH 34/62] fix: evicted elements should be removed from the index
 of the lru cache, getting an element refreshes it, check-then-set is atomic

---
 util/lru.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/util/lru.go b/util/lru.go
index 3ad84ef..8b0fe9b 100644
--- a/util/lru.go
+++ b/util/lru.go
@@ -16,6 +16,10 @@ func NewLruCache[K comparable, V any](cap int, clear int) *LruCache[K, V] {
 	if clear == 0 || clear > cap {
 		clear = cap / 3
 	}
+	// at least one element should be cleared to make room for the new one
+	if clear <= 0 {
+		clear = 1
+	}
 	return &LruCache[K, V]{
 		cap:   cap,
 		store: NewOrderedMap[K, V](),
@@ -33,31 +37,30 @@ func (c *LruCache[K, V]) HasKey(key K) bool {
 }
 
 func (c *LruCache[K, V]) Get(key K) V {
-	c.lock.RLock()
-	defer c.lock.RUnlock()
+	c.lock.Lock()
+	defer c.lock.Unlock()
 
+	if elem, ok := c.store.dict[key]; ok {
+		c.store.list.MoveToBack(elem)
+	}
 	return c.store.Get(key)
 }
 
 func (c *LruCache[K, V]) Set(key K, val V) {
-	if c.HasKey(key) {
-		c.lock.Lock()
-		defer c.lock.Unlock()
+	c.lock.Lock()
+	defer c.lock.Unlock()
 
-		elem := c.store.Set(key, val)
-		c.store.list.MoveToBack(elem)
+	if c.store.HasKey(key) {
+		c.store.Set(key, val)
 		return
 	}
 
-	c.lock.Lock()
-	defer c.lock.Unlock()
-
 	// clear the store if it's full
 	if c.store.list.Len()+1 > c.cap {
 		for i := 0; i < c.clear; i++ {
 			elem := c.store.list.Front()
 			if elem != nil {
-				c.store.list.Remove(elem)
+				c.store.Remove(elem.Value.(*KvPair[K, V]).Key)
 			}
 		}
 	}
-- 
2.43.0


From e562905c74808664dffd15e727d58f872fedd325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:30 +0000
Subject: [PATCH 35/62] fix: DirWalker should finish its workers, not deadlock
 on errors or repeated stops and not race on its queue

---
 util/walkdir.go | 74 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 61 insertions(+), 13 deletions(-)

diff --git a/util/walkdir.go b/util/walkdir.go
index b2cc3ff..583df2f 100644
--- a/util/walkdir.go
+++ b/util/walkdir.go
@@ -19,6 +19,7 @@ type DirWalker struct {
 
 	dirs     *list.List
 	dirsLock sync.Mutex
+	closed   bool
 
 	newJob chan bool
 
@@ -28,6 +29,8 @@ type DirWalker struct {
 	stop chan error
 	fin  chan bool
 	err  error
+
+	workers sync.WaitGroup
 }
 
 func NewDirWalker(dir string, concurrent int, handle DirWalkerHandle) *DirWalker {
@@ -56,25 +59,53 @@ func NewDirWalker(dir string, concurrent int, handle DirWalkerHandle) *DirWalker
 }
 
 func (w *DirWalker) shift() string {
-	if w.dirs.Len() == 0 {
-		return ""
-	}
 	w.dirsLock.Lock()
 	defer w.dirsLock.Unlock()
 
+	if w.dirs.Len() == 0 {
+		return ""
+	}
 	d := w.dirs.Front()
 	w.dirs.Remove(d)
 	return d.Value.(string)
 }
 
-func (w *DirWalker) push(file string) {
+// returns false if the walking is finished
+func (w *DirWalker) push(file string) bool {
 	w.dirsLock.Lock()
 	defer w.dirsLock.Unlock()
 
+	if w.closed {
+		return false
+	}
+	w.wg.Add(1)
 	w.dirs.PushBack(file)
+	return true
+}
+
+// discards the pending directories
+func (w *DirWalker) drain() {
+	w.dirsLock.Lock()
+	defer w.dirsLock.Unlock()
+
+	w.closed = true
+	for w.dirs.Len() > 0 {
+		w.dirs.Remove(w.dirs.Front())
+		w.wg.Done()
+	}
+}
+
+func (w *DirWalker) finished() bool {
+	select {
+	case <-w.fin:
+		return true
+	default:
+		return false
+	}
 }
 
 func (w *DirWalker) walk() {
+	defer w.workers.Done()
 loop:
 	for {
 		select {
@@ -86,7 +117,8 @@ loop:
 
 			files, err := os.ReadDir(dir)
 			if err != nil {
-				w.stop <- err
+				w.Stop(err)
+				w.wg.Done()
 				return
 			}
 
@@ -95,11 +127,19 @@ loop:
 			w.handle(dir, true, w)
 
 			for _, file := range files {
+				if w.finished() {
+					break
+				}
 				pth := filepath.Join(dir, file.Name())
 				if file.IsDir() {
-					w.wg.Add(1)
-					w.push(pth)
-					go func() { w.newJob <- true }()
+					if w.push(pth) {
+						go func() {
+							select {
+							case w.newJob <- true:
+							case <-w.fin:
+							}
+						}()
+					}
 				} else {
 					w.handle(pth, false, w)
 				}
@@ -114,14 +154,17 @@ loop:
 
 func (w *DirWalker) initWorkers() *DirWalker {
 	for i := 0; i < w.Concurrent; i++ {
+		w.workers.Add(1)
 		go w.walk()
-
 	}
 	return w
 }
 
 func (w *DirWalker) Stop(err error) {
-	w.stop <- err
+	select {
+	case w.stop <- err:
+	case <-w.fin: // already stopped or finished
+	}
 }
 
 func (w *DirWalker) Err() error {
@@ -129,13 +172,15 @@ func (w *DirWalker) Err() error {
 }
 
 func (w *DirWalker) Walk() {
-	w.wg.Add(1)
 	w.push(w.Dir)
 	w.newJob <- true
 
 	go func() {
 		w.wg.Wait()
-		w.wgFin <- true
+		select {
+		case w.wgFin <- true:
+		case <-w.fin:
+		}
 	}()
 
 loop:
@@ -149,5 +194,8 @@ loop:
 		}
 	}
 
-	w.fin <- true
+	// wake all the workers up and wait for the handles they're running
+	close(w.fin)
+	w.drain()
+	w.workers.Wait()
 }
-- 
2.43.0


From 886f4667b46b211cfab9cc067da4d6239d0fcdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:30 +0000
Subject: [PATCH 36/62] fix: ParseCache should parse once for each key and
 answer all of its callers

---
 parseutil/cache.go | 61 ++++++++++++++++++++++------------------------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/parseutil/cache.go b/parseutil/cache.go
index fae7a2c..c6e14a6 100644
--- a/parseutil/cache.go
+++ b/parseutil/cache.go
@@ -18,57 +18,54 @@ type Parser interface {
 	Parse(file, code string, readFile bool, biz interface{}) Parsed
 }
 
+// the result of the process shared by the callers of the same key
+type parsing struct {
+	done   chan struct{}
+	result Parsed
+}
+
 type ParseCache[T comparable] struct {
 	ps map[ParserType]Parser
 
-	store     map[T]interface{}
+	store     map[T]*parsing
 	storeLock sync.Mutex
 }
 
 func NewParseCache[T comparable]() *ParseCache[T] {
 	return &ParseCache[T]{
 		ps:        map[ParserType]Parser{},
-		store:     map[T]interface{}{},
+		store:     map[T]*parsing{},
 		storeLock: sync.Mutex{},
 	}
 }
 
 func (c *ParseCache[T]) SetParser(p Parser) {
+	c.storeLock.Lock()
+	defer c.storeLock.Unlock()
+
 	c.ps[p.Type()] = p
 }
 
 func (c *ParseCache[T]) Parse(typ ParserType, key T, file, code string, readFile bool, biz interface{}) FutureParsed {
-	var r interface{}
 	c.storeLock.Lock()
-	r = c.store[key]
+	job, ok := c.store[key]
+	if !ok { // first time
+		job = &parsing{done: make(chan struct{})}
+		c.store[key] = job
+	}
+	p := c.ps[typ]
 	c.storeLock.Unlock()
 
-	switch v := r.(type) {
-	case FutureParsed: // already has a pending process
-		return v
-
-	case *Parsed: // process has been done before
-		ret := make(FutureParsed, 1)
-		ret <- v
-		return ret
-
-	case nil: // first time
-		ret := make(FutureParsed, 1)
-		c.storeLock.Lock()
-		c.store[key] = ret
-		c.storeLock.Unlock()
-
-		go func() {
-			r := c.ps[typ].Parse(file, code, readFile, biz)
-
-			c.storeLock.Lock()
-			c.store[key] = r
-			c.storeLock.Unlock()
-
-			ret <- r
-		}()
-
-		return ret
-	}
-	panic("unreachable")
+	// each caller owns its future
+	ret := make(FutureParsed, 1)
+	go func() {
+		if ok {
+			<-job.done
+		} else {
+			job.result = p.Parse(file, code, readFile, biz)
+			close(job.done)
+		}
+		ret <- job.result
+	}()
+	return ret
 }
-- 
2.43.0


From bb11dbc65998be2eb62ae494a3b080ded17ea354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:30 +0000
Subject: [PATCH 37/62] fix: escapes in strings, CRLF in comments and trailing
 commas followed by comments in RemoveJsonComments

---
 util/str.go | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/util/str.go b/util/str.go
index 9989cb2..4862ec0 100644
--- a/util/str.go
+++ b/util/str.go
@@ -20,7 +20,8 @@ func RemoveJsonComments(str string) ([]byte, error) {
 	// 3 - multiline comment
 	state := 0
 
-	pr := utf8.RuneError
+	// whether the char is escaped in string
+	escaped := false
 
 	peek := func(str string) (rune, int, error) {
 		r, s := utf8.DecodeRuneInString(str)
@@ -30,8 +31,26 @@ func RemoveJsonComments(str string) ([]byte, error) {
 		return r, s, nil
 	}
 
+	// peeks the first rune which is neither whitespace nor in comment
 	peekNoWhite := func(str string) (rune, int, error) {
 		for {
+			if strings.HasPrefix(str, "//") {
+				i := strings.IndexAny(str, "\r\n")
+				if i < 0 {
+					i = len(str)
+				}
+				str = str[i:]
+				continue
+			} else if strings.HasPrefix(str, "/*") {
+				i := strings.Index(str[2:], "*/")
+				if i < 0 {
+					str = ""
+				} else {
+					str = str[i+4:]
+				}
+				continue
+			}
+
 			r, s := utf8.DecodeRuneInString(str)
 			if r == utf8.RuneError && s > 0 {
 				return utf8.RuneError, 0, errors.New("deformed json")
@@ -61,7 +80,7 @@ func RemoveJsonComments(str string) ([]byte, error) {
 		case '"':
 			if state == 0 {
 				state = 1
-			} else if state == 1 && pr != '\\' {
+			} else if state == 1 && !escaped {
 				state = 0
 			}
 		case '/':
@@ -80,21 +99,10 @@ func RemoveJsonComments(str string) ([]byte, error) {
 					continue
 				}
 			}
-		case '\r':
-			if state == 2 {
-				pp, _, _ := peek(str[s:])
-				if pp == '\n' {
-					next()
-				}
-				next()
-				sb.WriteRune('\n')
-				state = 0
-				continue
-			}
-		case '\n':
+		case '\r', '\n':
 			if state == 2 {
 				next()
-				sb.WriteRune('\n')
+				sb.WriteRune(r)
 				state = 0
 				continue
 			}
@@ -125,12 +133,12 @@ func RemoveJsonComments(str string) ([]byte, error) {
 			sb.WriteRune(next())
 		} else {
 			next()
-			if state == 3 && (r == '\r' || r == '\n') {
+			if state == 3 && (r == '\r' && !strings.HasPrefix(str, "\n") || r == '\n') {
 				sb.WriteRune('\n')
 			}
 			sb.WriteRune(' ')
 		}
-		pr = r
+		escaped = state == 1 && r == '\\' && !escaped
 	}
 	return []byte(sb.String()), nil
 }
-- 
2.43.0


From 348b91df6bb9f9782b2f498fc9c299227aaf4a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:30 +0000
Subject: [PATCH 38/62] fix: UnTarGz should not write outside of its
 destination, should make parent directories and close files

---
 util/shell.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/util/shell.go b/util/shell.go
index 1e9c711..7434f63 100644
--- a/util/shell.go
+++ b/util/shell.go
@@ -106,6 +106,11 @@ func UnTarGz(tarball, dist string) error {
 			return err
 		}
 
+		// the entries should not escape from the `dist`
+		if !filepath.IsLocal(filepath.FromSlash(header.Name)) {
+			return fmt.Errorf("illegal path in tarball: %s", header.Name)
+		}
+
 		path := filepath.Join(dist, header.Name)
 		info := header.FileInfo()
 		if info.IsDir() {
@@ -115,13 +120,18 @@ func UnTarGz(tarball, dist string) error {
 			continue
 		}
 
+		if err = os.MkdirAll(filepath.Dir(path), 0755); err != nil {
+			return err
+		}
+
 		file, err := os.OpenFile(path, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, info.Mode())
 		if err != nil {
 			return err
 		}
-		defer file.Close()
-
 		_, err = io.Copy(file, tarReader)
+		if cerr := file.Close(); err == nil {
+			err = cerr
+		}
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 198c07397299b64fa1d3e28ee5e30bcc3c17a564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:06 +0000
Subject: [PATCH 39/62] fix: MergeMaps should not modify its sources

---
 util/merge.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/util/merge.go b/util/merge.go
index ac53503..2108fbb 100644
--- a/util/merge.go
+++ b/util/merge.go
@@ -11,11 +11,25 @@ func MergeMap(dst map[string]interface{}, src map[string]interface{}) {
 			}
 		}
 		if v != nil {
-			dst[k] = v
+			dst[k] = cloneObj(v)
 		}
 	}
 }
 
+// the maps of the source should not be shared with the destination, otherwise
+// they would be modified by the subsequent merging
+func cloneObj(v interface{}) interface{} {
+	m, ok := v.(map[string]interface{})
+	if !ok {
+		return v
+	}
+	nm := make(map[string]interface{}, len(m))
+	for k, v := range m {
+		nm[k] = cloneObj(v)
+	}
+	return nm
+}
+
 func MergeMaps(dst map[string]interface{}, src ...map[string]interface{}) {
 	for _, s := range src {
 		MergeMap(dst, s)
-- 
2.43.0


From b5f50b55f98938455259fbd783b0fc39fbfa5ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:52 +0000
Subject: [PATCH 40/62] fix: multiline comments inside of JSX tags

---
 ecma/parser/lexer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 6168ec5..e287c63 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -394,6 +394,8 @@ func (l *Lexer) readTokWithComment() *Token {
 			l.src.Read()
 			if l.src.AheadIsCh('/') {
 				return l.readSinglelineComment(tok)
+			} else if l.src.AheadIsCh('*') {
+				return l.readMultilineComment(tok)
 			}
 			return l.finToken(tok, T_DIV)
 		case '>':
-- 
2.43.0


From e12452c3169f34131f5350ecde46c159061f78fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:13 +0000
Subject: [PATCH 41/62] fix: JSX elements as objects, callees and tags;
 attribute names with hyphens after an element value

---
 ecma/parser/jsx.go    | 9 +++++----
 ecma/parser/parser.go | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/ecma/parser/jsx.go b/ecma/parser/jsx.go
index 3a63efe..beab22c 100644
--- a/ecma/parser/jsx.go
+++ b/ecma/parser/jsx.go
@@ -129,7 +129,7 @@ func (p *Parser) jsxAttr() (Node, error) {
 		rng := tok.rng
 		val = &StrLit{N_LIT_STR, p.finRng(rng), p.TokText(tok), tok.HasLegacyOctalEscapeSeq(), span.Range{}, nil}
 	} else if av == T_LT {
-		val, err = p.jsx(true, false)
+		val, err = p.jsx(false, false)
 		if err != nil {
 			return nil, err
 		}
@@ -361,12 +361,13 @@ func (p *Parser) jsx(root bool, opening bool) (Node, error) {
 
 	// element is closed
 	p.lexer.PopMode()
-	ahead = p.lexer.Peek()
 	// here `T_LT` is not say that the followed node is a jsx-open tag since the close-tag also starts with `<`
 	// however if we combined the `is root` condition with is `is LI` then we can report the error `ERR_JSX_ADJACENT_ELEM_SHOULD_BE_WRAPPED`
 	// correctly since the root jsx element must stand alone
-	if ahead.value == T_LT && root {
-		return nil, p.errorAt(ahead.value, ahead.rng, ERR_JSX_ADJACENT_ELEM_SHOULD_BE_WRAPPED)
+	if root {
+		if ahead = p.lexer.Peek(); ahead.value == T_LT {
+			return nil, p.errorAt(ahead.value, ahead.rng, ERR_JSX_ADJACENT_ELEM_SHOULD_BE_WRAPPED)
+		}
 	}
 	return &JsxElem{N_JSX_ELEM, p.finRng(open.Range()), open, close, children}, nil
 }
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 59e0b01..b7e5a0c 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4542,7 +4542,7 @@ func (p *Parser) awaitExpr(tok *Token) (Node, error) {
 // https://tc39.es/ecma262/multipage/ecmascript-language-expressions.html#prod-UnaryExpression
 func (p *Parser) unaryExpr(typArgs Node, typArgsLoc span.Range, notColon bool) (Node, error) {
 	var err error
-	if typArgs == nil {
+	if typArgs == nil && (p.ts || p.feat&FEAT_JSX == 0) { // the JSX element is a primaryExpr
 		typArgs, err = p.tsTryTypArgs(span.Range{}, false)
 		if err != nil {
 			if err == p.errTypArgMissingGT {
-- 
2.43.0


From 9f696284845b177e56139e86b230b1625973cc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:18 +0000
Subject: [PATCH 42/62] fix: division after JSX elements

---
 ecma/parser/jsx.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecma/parser/jsx.go b/ecma/parser/jsx.go
index beab22c..355056d 100644
--- a/ecma/parser/jsx.go
+++ b/ecma/parser/jsx.go
@@ -365,6 +365,8 @@ func (p *Parser) jsx(root bool, opening bool) (Node, error) {
 	// however if we combined the `is root` condition with is `is LI` then we can report the error `ERR_JSX_ADJACENT_ELEM_SHOULD_BE_WRAPPED`
 	// correctly since the root jsx element must stand alone
 	if root {
+		// the `>` of the tag ends an operand so `/` after it is the division
+		p.lexer.state.prtVal = T_PAREN_R
 		if ahead = p.lexer.Peek(); ahead.value == T_LT {
 			return nil, p.errorAt(ahead.value, ahead.rng, ERR_JSX_ADJACENT_ELEM_SHOULD_BE_WRAPPED)
 		}
-- 
2.43.0


From 161c4e95c260978cacbefacfd19b956802912a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:17 +0000
Subject: [PATCH 43/62] fix: malformed JSX attributes are rejected

---
 ecma/parser/jsx.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/jsx.go b/ecma/parser/jsx.go
index 355056d..92a02b1 100644
--- a/ecma/parser/jsx.go
+++ b/ecma/parser/jsx.go
@@ -73,6 +73,9 @@ func (p *Parser) jsxName() (Node, string, error) {
 		name = id
 		pth = jsxName
 	}
+	if !p.ts {
+		return name, pth, nil
+	}
 	typArgs, err := p.tsTryTypArgs(span.Range{}, true)
 	if err != nil {
 		return nil, "", err
@@ -107,12 +110,14 @@ func (p *Parser) jsxAttr() (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	p.lexer.PushMode(LM_JSX_ATTR, true)
+	if id.Type() == N_JSX_MEMBER {
+		return nil, p.errorAtLoc(id.Range(), ERR_UNEXPECTED_TOKEN)
+	}
 	attr := &JsxAttr{N_JSX_ATTR, p.finRng(id.Range()), id, name, nil}
 	if p.lexer.Peek().value != T_ASSIGN {
-		p.lexer.PopMode()
 		return attr, nil
 	}
+	p.lexer.PushMode(LM_JSX_ATTR, true)
 	p.lexer.Next()
 
 	ahead = p.lexer.Peek()
@@ -124,6 +129,9 @@ func (p *Parser) jsxAttr() (Node, error) {
 		if err != nil {
 			return nil, err
 		}
+		if es, ok := val.(*JsxExprSpan); !ok || es.expr.Type() == N_JSX_EMPTY {
+			return nil, p.errorAtLoc(val.Range(), ERR_UNEXPECTED_TOKEN)
+		}
 	} else if av == T_STRING {
 		tok := p.lexer.Next()
 		rng := tok.rng
@@ -133,6 +141,8 @@ func (p *Parser) jsxAttr() (Node, error) {
 		if err != nil {
 			return nil, err
 		}
+	} else {
+		return nil, p.errorTok(ahead)
 	}
 	attr.rng = p.finRng(attr.rng)
 	attr.val = val
-- 
2.43.0


From c93bff38b2b6dd20d39ecc6d6ab4487560ccbb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:13 +0000
Subject: [PATCH 44/62] fix: regexp at the beginning of a stmt following an
 unterminated declaration, in-operator in JSX

---
 ecma/parser/jsx.go   |  1 +
 ecma/parser/lexer.go | 17 +++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/ecma/parser/jsx.go b/ecma/parser/jsx.go
index 92a02b1..a50a2b5 100644
--- a/ecma/parser/jsx.go
+++ b/ecma/parser/jsx.go
@@ -195,6 +195,7 @@ func (p *Parser) jsxOpen(tok *Token) (Node, error) {
 
 func (p *Parser) jsxExpr(rng span.Range) (Node, error) {
 	p.lexer.PushMode(LM_NONE, true)
+	defer p.permitIn()()
 
 	locAfterBrace := p.rng()
 
diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index e287c63..957b21b 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -204,6 +204,22 @@ func (l *Lexer) Peek() *Token {
 }
 
 func (l *Lexer) PeekStmtBegin() *Token {
+	// `/` may have been peeked to find the end of the previous stmt:
+	//
+	// ```
+	// let a
+	// /re/
+	// ```
+	if l.state.tb.len == 1 {
+		tok := l.state.tb.cur()
+		if (tok.value == T_DIV || tok.value == T_ASSIGN_DIV) && tok.rng.Hi == l.src.Ofst() {
+			atm := tok.afterLineTerm
+			tok.len = l.src.Pos() - tok.len
+			tok = l.readRegexp(tok)
+			tok.afterLineTerm = atm
+			return tok
+		}
+	}
 	l.state.beginStmt = true
 	tok := l.Peek()
 	l.state.beginStmt = false
@@ -1009,6 +1025,7 @@ func (l *Lexer) readSinglelineComment(tok *Token) *Token {
 // its contents
 func (l *Lexer) readRegexp(tok *Token) *Token {
 	pattern := l.src.NewOpenRange()
+	pattern.Lo = tok.rng.Lo + 1
 
 	couples := list.New()
 	rng := false
-- 
2.43.0


From 260890701ad5924cb2b19d4fc45e32e6285222c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:40 +0000
Subject: [PATCH 45/62] fix: no node is visited after the walk is stopped

---
 ecma/walk/ctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/walk/ctx.go b/ecma/walk/ctx.go
index ae576bd..9081d82 100644
--- a/ecma/walk/ctx.go
+++ b/ecma/walk/ctx.go
@@ -137,7 +137,7 @@ func (vc *VisitorCtx) ParentIsJmp(key string) bool {
 }
 
 func VisitNode(n parser.Node, key string, ctx *VisitorCtx) {
-	if n == nil {
+	if n == nil || ctx.WalkCtx.stop {
 		return
 	}
 	ctx.WalkCtx.PushVisitorCtx(n, key)
-- 
2.43.0


From c0beb91f038f5ac96068b08af52e4e49b4193eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:14 +0000
Subject: [PATCH 46/62] fix: scopes of the walk are in step with the scopes of
 the parser in for-in/of, while, switch and static blocks

---
 ecma/parser/ast.go    | 4 ++--
 ecma/parser/parser.go | 4 ++++
 ecma/walk/visitor.go  | 6 ++++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/ast.go b/ecma/parser/ast.go
index 86226b7..ff9587e 100644
--- a/ecma/parser/ast.go
+++ b/ecma/parser/ast.go
@@ -1546,7 +1546,7 @@ func (n *ForStmt) Body() Node {
 	return n.body
 }
 
-// #[visitor(Left,Right,Body)]
+// #[visitor(PUSH_SCOPE,Left,Right,Body)]
 type ForInOfStmt struct {
 	typ   NodeType
 	rng   span.Range
@@ -2040,7 +2040,7 @@ func (n *Field) SetTypInfo(ti *TypInfo) {
 	n.ti = ti
 }
 
-// #[visitor(Body)]
+// #[visitor(PUSH_SCOPE,Body)]
 type StaticBlock struct {
 	typ  NodeType
 	rng  span.Range
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index b7e5a0c..7355704 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2199,6 +2199,7 @@ func (p *Parser) switchStmt() (Node, error) {
 	if _, err := p.nextMustTok(T_PAREN_L); err != nil {
 		return nil, err
 	}
+	scopeBase := p.symtab.scopeIdSeed
 	test, err := p.expr()
 	if err != nil {
 		return nil, err
@@ -2214,6 +2215,7 @@ func (p *Parser) switchStmt() (Node, error) {
 	metDefault := false
 
 	scope := p.symtab.EnterScope(false, false, true)
+	p.symtab.adoptScopes(scope, scopeBase)
 	scope.AddKind(SPK_SWITCH)
 
 	for {
@@ -2402,6 +2404,7 @@ func (p *Parser) whileStmt() (Node, error) {
 	if _, err := p.nextMustTok(T_PAREN_L); err != nil {
 		return nil, err
 	}
+	scopeBase := p.symtab.scopeIdSeed
 	test, err := p.expr()
 	if err != nil {
 		return nil, err
@@ -2411,6 +2414,7 @@ func (p *Parser) whileStmt() (Node, error) {
 	}
 
 	scope := p.symtab.EnterScope(false, false, true)
+	p.symtab.adoptScopes(scope, scopeBase)
 	scope.AddKind(SPK_LOOP_DIRECT)
 
 	tok := p.lexer.PeekStmtBegin()
diff --git a/ecma/walk/visitor.go b/ecma/walk/visitor.go
index 36c2105..4b9a13d 100644
--- a/ecma/walk/visitor.go
+++ b/ecma/walk/visitor.go
@@ -1956,6 +1956,9 @@ func VisitAssignPatAfter(node parser.Node, key string, ctx *VisitorCtx) {
 func VisitStaticBlock(node parser.Node, key string, ctx *VisitorCtx) {
 	n := node.(*parser.StaticBlock)
 
+	ctx.WalkCtx.PushScope()
+	defer ctx.WalkCtx.PopScope()
+
 	CallVisitor(N_STATIC_BLOCK_BEFORE, n, key, ctx)
 	defer CallVisitor(N_STATIC_BLOCK_AFTER, n, key, ctx)
 
@@ -2071,6 +2074,9 @@ func VisitTsTypOpAfter(node parser.Node, key string, ctx *VisitorCtx) {
 func VisitForInOfStmt(node parser.Node, key string, ctx *VisitorCtx) {
 	n := node.(*parser.ForInOfStmt)
 
+	ctx.WalkCtx.PushScope()
+	defer ctx.WalkCtx.PopScope()
+
 	CallVisitor(N_STMT_FOR_IN_OF_BEFORE, n, key, ctx)
 	defer CallVisitor(N_STMT_FOR_IN_OF_AFTER, n, key, ctx)
 
-- 
2.43.0


From 81c009fec4af0df8d2f2ae4f56dd6463818ace02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:09 +0000
Subject: [PATCH 47/62] fix: names of function and class expressions are bound
 in their own scope, var in static block does not leak to the class

---
 ecma/parser/parser.go |  6 ++++++
 ecma/parser/symtab.go | 16 +++++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 7355704..7138f19 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1255,6 +1255,9 @@ func (p *Parser) classDec(expr bool, canNameOmitted bool, declare bool, abstract
 	}
 
 	s := p.symtab.LeaveScope()
+	if expr && id != nil {
+		s.addSelfBinding(id.(*Ident), RDT_CLASS)
+	}
 	// balance the intermediate mode described above to handle
 	// the id part of the class dec
 	p.lexer.PopMode()
@@ -2992,6 +2995,9 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	}
 
 	s := p.symtab.LeaveScope()
+	if expr && id != nil {
+		s.addSelfBinding(id.(*Ident), RDT_FN)
+	}
 
 	if ti != nil {
 		if !fn {
diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index e03c617..c27a2cb 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -201,7 +201,7 @@ func (s *Scope) Local(name string) *Ref {
 func (s *Scope) UpperFn() *Scope {
 	scope := s
 	for scope != nil {
-		if scope.IsKind(SPK_FUNC) || scope.IsKind(SPK_GLOBAL) {
+		if scope.IsKind(SPK_FUNC) || scope.IsKind(SPK_GLOBAL) || scope.IsKind(SPK_STATIC_BLOCK) {
 			return scope
 		}
 		scope = scope.Up
@@ -317,6 +317,20 @@ func (s *Scope) AddLocal(ref *Ref, name string, checkDup bool) bool {
 	return true
 }
 
+// adds the binding of the name of the function or class expression, which is visible only in
+// the scope of that expression and gives way to the other bindings there
+func (s *Scope) addSelfBinding(id *Ident, typ RefDefType) {
+	if s.Local(id.val) != nil {
+		return
+	}
+	ref := NewRef()
+	ref.Id = id
+	ref.BindKind = BK_CONST
+	ref.Typ = typ
+	ref.Scope = s
+	s.Refs[id.val] = ref
+}
+
 // caller should ensure both `r1` and `r2` have the same name
 func CheckRefDup(r1, r2 *Ref) bool {
 	if IsCallableClass(r1, r2) {
-- 
2.43.0


From d8e91a52d76623b4669d6f56a9f3a0516d818552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:54 +0000
Subject: [PATCH 48/62] fix: jumps out of loops and cut branches in control
 flow graphs

---
 ecma/analysis/ctrlflow.go | 27 +++++++++++++++++----------
 ecma/analysis/graph.go    | 39 +++++++++++++++++++++++++++++++--------
 2 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/ecma/analysis/ctrlflow.go b/ecma/analysis/ctrlflow.go
index df7bb42..a7cb08e 100644
--- a/ecma/analysis/ctrlflow.go
+++ b/ecma/analysis/ctrlflow.go
@@ -952,13 +952,16 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 
 		vn := ac.graph.newGroupBlk()
 		vn.Inlets = enter.Inlets
+
+		exit := ac.newExit(node, "")
+		// the breaks are resolved at first, the other unconditional jumps go beyond the loop
+		resolveBrk(ac, ctx.ScopeId(), exit)
 		if test != nil {
 			vn.addOutlets(test.xJmpOutEdges())
 		}
 		vn.addOutlets(body.xOutEdges())
 
-		exit := ac.newExit(node, "")
-		link(ac, vn, EK_JMP, ET_NONE, EK_JMP, ET_NONE, exit, LF_NONE)
+		link(ac, vn, EK_JMP, ET_JMP_T|ET_JMP_F, EK_JMP, ET_NONE, exit, LF_NONE)
 		link(ac, vn, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 
 		if tn := n.Test(); tn != nil && tn.Type().IsLit() {
@@ -997,13 +1000,16 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 
 		vn := ac.graph.newGroupBlk()
 		vn.Inlets = enter.Inlets
+
+		exit := ac.newExit(node, "")
+		// the breaks are resolved at first, the other unconditional jumps go beyond the loop
+		resolveBrk(ac, ctx.ScopeId(), exit)
 		if test != nil {
 			vn.addOutlets(test.xJmpOutEdges())
 		}
 		vn.addOutlets(body.xOutEdges())
 
-		exit := ac.newExit(node, "")
-		link(ac, vn, EK_JMP, ET_NONE, EK_JMP, ET_NONE, exit, LF_NONE)
+		link(ac, vn, EK_JMP, ET_JMP_T|ET_JMP_F, EK_JMP, ET_NONE, exit, LF_NONE)
 		link(ac, vn, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 		ac.pushStmt(grpBlock(ac, vn, exit))
 
@@ -1665,13 +1671,14 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 
 	// resolve the hanging breaks inside the loop, link them to the loop exit
 	if isLoop(astTyp) || astTyp == parser.N_STMT_SWITCH {
-		id := ctx.ScopeId()
 		loopBlk := ac.lastStmt()
-		loopExit := loopBlk.OutSeqEdge().Src
-		brkList := ac.graph.hangingBrk[id]
-		for _, brk := range brkList {
-			link(ac, brk, EK_JMP, ET_NONE, EK_JMP, ET_NONE, loopExit, LF_OVERWRITE)
-		}
+		resolveBrk(ac, ctx.ScopeId(), loopBlk.OutSeqEdge().Src)
+	}
+}
+
+func resolveBrk(a *AnalysisCtx, scopeId int, exit *Block) {
+	for _, brk := range a.graph.hangingBrk[scopeId] {
+		link(a, brk, EK_JMP, ET_NONE, EK_JMP, ET_NONE, exit, LF_OVERWRITE)
 	}
 }
 
diff --git a/ecma/analysis/graph.go b/ecma/analysis/graph.go
index 0557861..06b3118 100644
--- a/ecma/analysis/graph.go
+++ b/ecma/analysis/graph.go
@@ -264,10 +264,21 @@ func (b *Block) FindInEdge(k EdgeKind, t EdgeTag, create bool) (*Edge, bool) {
 }
 
 func (b *Block) FindHangingInEdge(src *Block, k EdgeKind, t EdgeTag, create bool) (*Edge, bool) {
-	e := FindEdge(b.Inlets, k, t)
+	var e *Edge
+	for _, edge := range b.Inlets {
+		if edge.Kind != k || edge.Tag != ET_NONE && t != ET_NONE && edge.Tag&t == 0 {
+			continue
+		}
+		if edge.Src == src {
+			return edge, false
+		}
+		if edge.Src == nil {
+			e = edge
+		}
+	}
 
 	new := false
-	if (e == nil || e.Src != nil && e.Src != src) && create {
+	if e == nil && create {
 		e = &Edge{k, t, nil, b}
 		b.Inlets[e] = e
 		new = true
@@ -565,6 +576,23 @@ func (b *Block) HasOutCut() bool {
 	return false
 }
 
+// marks the inlets of `to` which are the other ends of the cut outlets of `b`
+func (b *Block) markCutInlets(to *Block) bool {
+	marked := false
+	for _, edge := range b.Outlets {
+		if edge.Tag&ET_CUT == 0 || edge.Dst != to {
+			continue
+		}
+		marked = true
+		for _, in := range to.Inlets {
+			if in.Src == edge.Src {
+				in.Tag |= ET_CUT
+			}
+		}
+	}
+	return marked
+}
+
 func (b *Block) IsOutCut(to *Block) bool {
 	cutEdge := b.OutEdge(ET_CUT)
 	return cutEdge != nil && cutEdge.Dst == to
@@ -919,12 +947,7 @@ func link(a *AnalysisCtx, from *Block, fromKind EdgeKind, fromTag EdgeTag, toKin
 	// process reaches here means the `from` maybe group block or basic block which has multiple outlets
 	linkEdges(from.Outlets, fromKind, fromTag, toKind, toTag, to, flag)
 
-	if from.IsOutCut(to) {
-		for _, edge := range to.Inlets {
-			if edge.Src == fromSeq {
-				edge.Tag |= ET_CUT
-			}
-		}
+	if from.markCutInlets(to) {
 		cut, pair := to.IsInCutPair()
 		if cut {
 			for _, edge := range to.Outlets {
-- 
2.43.0


From 5db63e9fd3e3c4efe46a16487429a0a0fc463f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:08 +0000
Subject: [PATCH 49/62] fix: empty clauses of switch, dead continues and
 endless loops in control flow graphs

---
 ecma/analysis/ctrlflow.go | 16 +++++++++++++---
 ecma/analysis/graph.go    |  9 +++++++--
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/ecma/analysis/ctrlflow.go b/ecma/analysis/ctrlflow.go
index a7cb08e..66232f0 100644
--- a/ecma/analysis/ctrlflow.go
+++ b/ecma/analysis/ctrlflow.go
@@ -1374,7 +1374,8 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			// the body of the case-clause
 			ac.popStmt()
 
-			link(ac, test, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
+			// the test and the body of the clause are always kept apart, see `SwitchCase`
+			link(ac, test, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_FORCE_SEP)
 		}
 
 		vn := grpBlock(ac, enter, exit)
@@ -1683,11 +1684,20 @@ func resolveBrk(a *AnalysisCtx, scopeId int, exit *Block) {
 }
 
 func resolveCont(a *AnalysisCtx, loopNode parser.Node, loopTailBlk *Block) {
+	jmps := []*Block{}
 	for _, cont := range a.graph.hangingCont[loopNode] {
 		// cont is a placeholder, so we need to find the source blk, then it to loopTailBlk
 		edge, _ := cont.FindInEdge(EK_JMP, ET_LOOP, false)
-		jmp := edge.Src
-		link(a, jmp, EK_JMP, ET_LOOP, EK_JMP, ET_LOOP, loopTailBlk, LF_OVERWRITE)
+		jmps = append(jmps, edge.Src)
+	}
+	// the dead jumps are linked lastly, whether the loop tail is dead is unknown before all the
+	// others are linked
+	for _, dead := range []bool{false, true} {
+		for _, jmp := range jmps {
+			if jmp.IsInCut() == dead {
+				link(a, jmp, EK_JMP, ET_LOOP, EK_JMP, ET_LOOP, loopTailBlk, LF_OVERWRITE)
+			}
+		}
 	}
 }
 
diff --git a/ecma/analysis/graph.go b/ecma/analysis/graph.go
index 06b3118..46532c4 100644
--- a/ecma/analysis/graph.go
+++ b/ecma/analysis/graph.go
@@ -497,8 +497,13 @@ func (b *Block) mrkSeqOutAsLoop() {
 	b.mrkSeqOutAsJmp(ET_LOOP)
 }
 
+// adds the cut edge beside the loop edge
 func (b *Block) addCutOutEdge() {
-	blk := util.PickOne(b.Outlets).Src
+	loop := b.OutJmpEdge(ET_LOOP)
+	if loop == nil {
+		loop = util.PickOne(b.Outlets)
+	}
+	blk := loop.Src
 	edge := &Edge{EK_SEQ, ET_NONE, blk, nil}
 	edge.Tag |= ET_CUT
 	blk.Outlets[edge] = edge
@@ -926,7 +931,7 @@ func link(a *AnalysisCtx, from *Block, fromKind EdgeKind, fromTag EdgeTag, toKin
 	}
 
 	// if `from` has only one outlet then that outlet must be seq, merge the first node of `to` into `from`
-	if forceJoin || fromKind == EK_SEQ && !forceSep && to.onlySeqIn() {
+	if forceJoin || fromKind == EK_SEQ && !forceSep && to.onlySeqIn() && util.PickOne(to.Inlets).Src == nil {
 
 		// process `from` which maybe group blk
 		if from.onlySeqOut() || forceJoin {
-- 
2.43.0


From cda3657c4674921a58f7478774d7540e3e01ce59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:48 +0000
Subject: [PATCH 50/62] fix: loops in try, catch without parameter, throw and
 return after jumps in control flow graphs

---
 ecma/analysis/ctrlflow.go | 22 +++++++++++++++-------
 ecma/analysis/graph.go    |  6 +++++-
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/ecma/analysis/ctrlflow.go b/ecma/analysis/ctrlflow.go
index 66232f0..83292d2 100644
--- a/ecma/analysis/ctrlflow.go
+++ b/ecma/analysis/ctrlflow.go
@@ -1144,14 +1144,21 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		}
 
 	case parser.N_CATCH:
-		_ = node.(*parser.Catch)
-		id := ac.popExpr()
+		n := node.(*parser.Catch)
+		var id *Block
+		if n.Param() != nil {
+			id = ac.popExpr()
+		}
 		enter := ac.popExpr()
 		body := ac.popStmt()
 		exit := ac.newExit(node, "")
 
-		link(ac, enter, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, id, LF_NONE)
-		link(ac, id, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, body, LF_NONE)
+		if id != nil {
+			link(ac, enter, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, id, LF_NONE)
+			link(ac, id, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, body, LF_NONE)
+		} else {
+			link(ac, enter, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, body, LF_NONE)
+		}
 		link(ac, body, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 
 		ac.pushStmt(grpBlock(ac, enter, exit))
@@ -1255,7 +1262,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			prev.newJmpOut(ET_JMP_E)
 		}
 
-		exit.newJmpOut(ET_JMP_U)
+		jmp := exit.newJmpOut(ET_JMP_U)
 		link(ac, prev, EK_SEQ, ET_NONE, EK_NONE, ET_NONE, exit, LF_NONE)
 		link(ac, prev, EK_JMP, ET_JMP_T|ET_JMP_F, EK_NONE, ET_NONE, exit, LF_NONE)
 		exit.mrkSeqOutAsCut()
@@ -1267,7 +1274,8 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			if n.Target().Type() == parser.N_PROG {
 				ac.graph.hasHangingThrow = true
 			} else {
-				ac.graph.addHangingThrow(n.Target(), vn)
+				// `vn` holds also the jumps of the stmts before, such as their returns
+				ac.graph.addHangingThrow(n.Target(), jmp.Src)
 			}
 		}
 
@@ -1524,7 +1532,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			link(ac, prev, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, arg, LF_NONE)
 			prev = arg
 		}
-		link(ac, prev, EK_JMP, ET_NONE, EK_JMP, ET_NONE, exit, LF_NONE)
+		link(ac, prev, EK_JMP, ET_JMP_T|ET_JMP_F, EK_JMP, ET_NONE, exit, LF_NONE)
 		link(ac, prev, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 		exit.mrkSeqOutAsCut()
 
diff --git a/ecma/analysis/graph.go b/ecma/analysis/graph.go
index 46532c4..9d42f7c 100644
--- a/ecma/analysis/graph.go
+++ b/ecma/analysis/graph.go
@@ -436,7 +436,11 @@ func (b *Block) seqInEdge() *Edge {
 
 // add new jmp branch from the source node of seqOut
 func (b *Block) newJmpOut(k EdgeTag) *Edge {
-	seq := b.seqOutEdge()
+	// the block which ends with the jump to the loop head has no seqOut
+	seq := b.OutSeqEdge()
+	if seq == nil {
+		seq = util.PickOne(b.Outlets)
+	}
 	edge := &Edge{EK_JMP, k, seq.Src, nil}
 	seq.Src.Outlets[edge] = edge
 
-- 
2.43.0


From 08f23c401d4a350e5b2b86376d1f3ab33c019bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:32 +0000
Subject: [PATCH 51/62] fix: labelled breaks, empty bodies, exceptions of throw
 and breaks of switch in control flow graphs

---
 ecma/analysis/ctrlflow.go | 112 ++++++++++++++++++++++++++------------
 ecma/analysis/graph.go    |  31 ++++++++---
 2 files changed, 98 insertions(+), 45 deletions(-)

diff --git a/ecma/analysis/ctrlflow.go b/ecma/analysis/ctrlflow.go
index 83292d2..2ed9802 100644
--- a/ecma/analysis/ctrlflow.go
+++ b/ecma/analysis/ctrlflow.go
@@ -94,6 +94,15 @@ func (a *AnalysisCtx) popStmt() *Block {
 	return last
 }
 
+// same as `popStmt` but for the stmt which is the body of its parent, the empty stmt is not visited
+// therefore there is no block of it in the stack
+func (a *AnalysisCtx) popBody(node parser.Node) *Block {
+	if node.Type() == parser.N_STMT_EMPTY {
+		return a.graph.newBasicBlk()
+	}
+	return a.popStmt()
+}
+
 func (a *AnalysisCtx) pushExpr(b *Block) {
 	a.exprStack = append(a.exprStack, b)
 }
@@ -158,6 +167,11 @@ func isLoop(t parser.NodeType) bool {
 	return t == parser.N_STMT_FOR || t == parser.N_STMT_WHILE || t == parser.N_STMT_DO_WHILE || t == parser.N_STMT_FOR_IN_OF
 }
 
+// the stmts which resolve the breaks by themselves
+func isBreakable(t parser.NodeType) bool {
+	return isLoop(t) || t == parser.N_STMT_SWITCH
+}
+
 func isAtom(t parser.NodeType) bool {
 	_, ok := walk.AtomNodeTypes[t]
 	return ok
@@ -171,7 +185,9 @@ func pushAtomNode(node parser.Node, key string, ctx *walk.VisitorCtx) *Block {
 	ac := analysisCtx(ctx)
 	b := ac.graph.newBasicBlk()
 	b.addNode(node)
-	ac.pushExpr(b)
+	if !node.Type().IsStmt() {
+		ac.pushExpr(b)
+	}
 	return b
 }
 
@@ -188,21 +204,10 @@ func handleBefore(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		blk = ac.newEnter(node, "")
 	}
 
-	// record the label to its target scope
-	if (astTyp.IsExpr() || astTyp.IsStmt() && astTyp == parser.N_STMT_EXPR) && pAstTyp != parser.N_STMT_LABEL {
-		if cnt := len(ac.graph.hangingLabels); cnt > 0 {
-			last, rest := ac.graph.hangingLabels[cnt-1], ac.graph.hangingLabels[:cnt-1]
-			ac.graph.hangingLabels = rest
-			ac.graph.labelLoop[last] = ctx.ScopeId()
-		}
-	}
-
 	// stmt
 	if astTyp.IsStmt() || astTyp == parser.N_PROG {
 
-		if astTyp == parser.N_STMT_LABEL && node.(*parser.LabelStmt).Used() {
-			ac.graph.hangingLabels = append(ac.graph.hangingLabels, node)
-		} else if astTyp == parser.N_STMT_FN || astTyp == parser.N_EXPR_FN {
+		if astTyp == parser.N_STMT_FN || astTyp == parser.N_EXPR_FN {
 			enterFnGraph(node, ctx, true)
 		}
 
@@ -847,9 +852,9 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		n := node.(*parser.IfStmt)
 		var enter, test, cons, alt *Block
 		if n.Alt() != nil {
-			alt = ac.popStmt()
+			alt = ac.popBody(n.Alt())
 		}
-		cons = ac.popStmt()
+		cons = ac.popBody(n.Cons())
 		test = ac.popExpr()
 		enter = ac.popStmt()
 
@@ -885,7 +890,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 	case parser.N_STMT_FOR:
 		n := node.(*parser.ForStmt)
 		var enter, init, test, update, body *Block
-		body = ac.popStmt()
+		body = ac.popBody(n.Body())
 		if n.Update() != nil {
 			update = ac.popExpr()
 		}
@@ -955,7 +960,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 
 		exit := ac.newExit(node, "")
 		// the breaks are resolved at first, the other unconditional jumps go beyond the loop
-		resolveBrk(ac, ctx.ScopeId(), exit)
+		resolveBrk(ac, ctx.ScopeId(), node, exit, false)
 		if test != nil {
 			vn.addOutlets(test.xJmpOutEdges())
 		}
@@ -974,7 +979,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 
 	case parser.N_STMT_WHILE:
 		n := node.(*parser.WhileStmt)
-		body := ac.popStmt()
+		body := ac.popBody(n.Body())
 		test := ac.popExpr()
 		enter := ac.popStmt()
 
@@ -1003,7 +1008,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 
 		exit := ac.newExit(node, "")
 		// the breaks are resolved at first, the other unconditional jumps go beyond the loop
-		resolveBrk(ac, ctx.ScopeId(), exit)
+		resolveBrk(ac, ctx.ScopeId(), node, exit, false)
 		if test != nil {
 			vn.addOutlets(test.xJmpOutEdges())
 		}
@@ -1016,7 +1021,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 	case parser.N_STMT_DO_WHILE:
 		n := node.(*parser.DoWhileStmt)
 		test := ac.popExpr()
-		body := ac.popStmt()
+		body := ac.popBody(n.Body())
 		enter := ac.popStmt()
 
 		test.newJmpOut(ET_JMP_F)
@@ -1055,7 +1060,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		ac.pushStmt(grpBlock(ac, vn, exit))
 
 	case parser.N_STMT_FOR_IN_OF:
-		body := ac.popStmt()
+		body := ac.popBody(node.(*parser.ForInOfStmt).Body())
 		enter := ac.popStmt()
 		rhs := ac.popExpr()
 		lhs := ac.popExpr()
@@ -1181,6 +1186,9 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		eb := map[*Edge]*Edge{}
 		IterBlock(try.unwrapSeqIn(), func(blk *Block) {
 			if edge := blk.FindOutEdge(EK_JMP, ET_JMP_E, false); edge != nil || blk.allInfoNode() || blk.throwLit() {
+				if edge != nil && edge.Dst == nil {
+					eb[edge] = edge
+				}
 				return
 			}
 			edge := blk.newJmpOut(ET_JMP_E)
@@ -1333,9 +1341,10 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		_, hasBreak := ac.graph.hangingBrk[ctx.ScopeId()]
 
 		flag := LF_NONE
-		if hasBreak {
+		if hasBreak || len(ac.graph.hangingLabelBrk[node]) > 0 {
 			flag |= LF_FORCE_SEP
 		}
+		resolveBrk(ac, ctx.ScopeId(), node, exit, false)
 
 		if head != nil {
 			link(ac, test, EK_JMP, ET_NONE, EK_JMP, ET_NONE, head, LF_NONE)
@@ -1393,15 +1402,31 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		ac.pushStmt(vn)
 
 	case parser.N_STMT_LABEL:
-		body := ac.popStmt()
+		body := ac.popBody(node.(*parser.LabelStmt).Body())
 		enter := ac.popStmt()
 		lb := ac.popExpr()
 
 		link(ac, enter, EK_SEQ, ET_NONE, EK_NONE, ET_NONE, lb, LF_NONE)
 		link(ac, lb, EK_SEQ, ET_NONE, EK_NONE, ET_NONE, body, LF_NONE)
 		exit := ac.newExit(node, "")
-		link(ac, body, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
-		ac.pushStmt(grpBlock(ac, enter, exit))
+
+		flag := LF_NONE
+		stmt := node.(*parser.LabelStmt).Body()
+		resolve := len(ac.graph.hangingLabelBrk[stmt]) > 0 && !isBreakable(stmt.Type())
+		if resolve {
+			flag |= LF_FORCE_SEP
+		}
+		if resolve {
+			resolveBrk(ac, -1, stmt, exit, false)
+		}
+		link(ac, body, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, flag)
+		if resolve {
+			resolveBrk(ac, -1, stmt, exit, true)
+		}
+
+		vn := grpBlock(ac, enter, exit)
+		vn.addOutlets(body.xJmpOutEdges())
+		ac.pushStmt(vn)
 
 	case parser.N_STMT_CONT:
 		prev := ac.popStmt()
@@ -1416,7 +1441,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			link(ac, name, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 
 			target = ac.graph.newBasicBlk()
-			ac.graph.addHangingCont(n.Target().(*parser.LabelStmt).Body(), target)
+			ac.graph.addHangingCont(labelledStmt(n.Target()), target)
 		} else {
 			link(ac, prev, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 
@@ -1441,8 +1466,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			link(ac, name, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 			exit.mrkSeqOutAsCut()
 			exit.newJmpOut(ET_JMP_U)
-			id := ac.graph.labelLoop[n.Target()]
-			ac.graph.addHangingBrk(id, exit)
+			ac.graph.addHangingLabelBrk(labelledStmt(n.Target()), exit)
 		} else {
 			link(ac, prev, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 			exit.mrkSeqOutAsCut()
@@ -1531,8 +1555,8 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			arg := ac.popExpr()
 			link(ac, prev, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, arg, LF_NONE)
 			prev = arg
+			link(ac, prev, EK_JMP, ET_NONE, EK_JMP, ET_NONE, exit, LF_NONE)
 		}
-		link(ac, prev, EK_JMP, ET_JMP_T|ET_JMP_F, EK_JMP, ET_NONE, exit, LF_NONE)
 		link(ac, prev, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 		exit.mrkSeqOutAsCut()
 
@@ -1654,14 +1678,14 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 
 	case parser.N_STMT_WITH:
 		obj := ac.popExpr()
-		body := ac.popStmt()
+		body := ac.popBody(node.(*parser.WithStmt).Body())
 		enter := ac.popStmt()
 		exit := ac.newExit(node, "")
 
 		link(ac, enter, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, obj, LF_NONE)
 
 		prev := grpBlock(ac, enter, obj)
-		link(ac, prev, EK_JMP, ET_NONE, EK_JMP, ET_NONE, body, LF_NONE)
+		link(ac, obj, EK_JMP, ET_NONE, EK_JMP, ET_NONE, body, LF_NONE)
 		link(ac, prev, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, body, LF_NONE)
 
 		prev = grpBlock(ac, prev, body)
@@ -1679,15 +1703,31 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 	}
 
 	// resolve the hanging breaks inside the loop, link them to the loop exit
-	if isLoop(astTyp) || astTyp == parser.N_STMT_SWITCH {
+	if isBreakable(astTyp) {
 		loopBlk := ac.lastStmt()
-		resolveBrk(ac, ctx.ScopeId(), loopBlk.OutSeqEdge().Src)
+		exit := loopBlk.OutSeqEdge().Src
+		resolveBrk(ac, ctx.ScopeId(), node, exit, false)
+		resolveBrk(ac, ctx.ScopeId(), node, exit, true)
+	}
+}
+
+// returns the stmt which is labelled, skips the labels in between
+func labelledStmt(node parser.Node) parser.Node {
+	for node.Type() == parser.N_STMT_LABEL {
+		node = node.(*parser.LabelStmt).Body()
 	}
+	return node
 }
 
-func resolveBrk(a *AnalysisCtx, scopeId int, exit *Block) {
-	for _, brk := range a.graph.hangingBrk[scopeId] {
-		link(a, brk, EK_JMP, ET_NONE, EK_JMP, ET_NONE, exit, LF_OVERWRITE)
+// links the breaks of `node` to its exit, whether the exit is dead is unknown before all of its inlets
+// are linked, so the live breaks should be linked before the others, and the dead ones lastly
+func resolveBrk(a *AnalysisCtx, scopeId int, node parser.Node, exit *Block, dead bool) {
+	for _, brks := range [][]*Block{a.graph.hangingBrk[scopeId], a.graph.hangingLabelBrk[node]} {
+		for _, brk := range brks {
+			if brk.IsInCut() == dead {
+				link(a, brk, EK_JMP, ET_JMP_U, EK_JMP, ET_NONE, exit, LF_OVERWRITE)
+			}
+		}
 	}
 }
 
diff --git a/ecma/analysis/graph.go b/ecma/analysis/graph.go
index 9d42f7c..7a056a9 100644
--- a/ecma/analysis/graph.go
+++ b/ecma/analysis/graph.go
@@ -594,7 +594,8 @@ func (b *Block) markCutInlets(to *Block) bool {
 		}
 		marked = true
 		for _, in := range to.Inlets {
-			if in.Src == edge.Src {
+			// the two blocks may be linked by another live edge, such as the one of `continue`
+			if in.Src == edge.Src && !in.Src.hasLiveOut(to, in.Tag) {
 				in.Tag |= ET_CUT
 			}
 		}
@@ -602,6 +603,15 @@ func (b *Block) markCutInlets(to *Block) bool {
 	return marked
 }
 
+func (b *Block) hasLiveOut(to *Block, tag EdgeTag) bool {
+	for _, edge := range b.Outlets {
+		if edge.Dst == to && edge.Tag == tag && tag&ET_CUT == 0 {
+			return true
+		}
+	}
+	return false
+}
+
 func (b *Block) IsOutCut(to *Block) bool {
 	cutEdge := b.OutEdge(ET_CUT)
 	return cutEdge != nil && cutEdge.Dst == to
@@ -638,13 +648,12 @@ type Graph struct {
 	Head   *Block
 	Parent *Graph
 
-	// map the label to its target scope
-	hangingLabels []parser.Node
-	labelLoop     map[parser.Node]int
-
 	// records basic block need to be resolved, key is the id of the scope which includes the basic block
 	hangingBrk map[int][]*Block
 
+	// same as above but for the labelled breaks, key is the labelled stmt
+	hangingLabelBrk map[parser.Node][]*Block
+
 	// cont jumps to tail of the loop, so when processing the labelled-cont, the jump target is unknown since
 	// the tail of the loop has not been processed, for resolving this problem, a placeholder is introduced
 	// here for imitating the jump target and the placeholder will be resolved when the tail of the loop
@@ -673,10 +682,10 @@ type Graph struct {
 
 func newGraph() *Graph {
 	g := &Graph{
-		labelLoop:    map[parser.Node]int{},
-		hangingBrk:   map[int][]*Block{},
-		hangingCont:  map[parser.Node][]*Block{},
-		hangingThrow: map[parser.Node][]*Block{},
+		hangingBrk:      map[int][]*Block{},
+		hangingLabelBrk: map[parser.Node][]*Block{},
+		hangingCont:     map[parser.Node][]*Block{},
+		hangingThrow:    map[parser.Node][]*Block{},
 
 		astNodeToBlock: map[parser.Node]*Block{},
 		astNodeToEntry: map[parser.Node]*Block{},
@@ -714,6 +723,10 @@ func (g *Graph) addHangingBrk(id int, blk *Block) {
 	g.hangingBrk[id] = append(list, blk)
 }
 
+func (g *Graph) addHangingLabelBrk(stmt parser.Node, blk *Block) {
+	g.hangingLabelBrk[stmt] = append(g.hangingLabelBrk[stmt], blk)
+}
+
 func (g *Graph) addHangingCont(loop parser.Node, blk *Block) {
 	list := g.hangingCont[loop]
 	if list == nil {
-- 
2.43.0


From 6c7ae940edc66eab6174c1f206476bfa0a2c0d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:16 +0000
Subject: [PATCH 52/62] fix: loops whose test is a falsy literal end in control
 flow graphs

---
 ecma/analysis/ctrlflow.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/ecma/analysis/ctrlflow.go b/ecma/analysis/ctrlflow.go
index 2ed9802..dd8c961 100644
--- a/ecma/analysis/ctrlflow.go
+++ b/ecma/analysis/ctrlflow.go
@@ -1,6 +1,9 @@
 package analysis
 
 import (
+	"strconv"
+	"strings"
+
 	"github.com/hsiaosiyuan0/mole/ecma/parser"
 	"github.com/hsiaosiyuan0/mole/ecma/walk"
 	"github.com/hsiaosiyuan0/mole/span"
@@ -172,6 +175,24 @@ func isBreakable(t parser.NodeType) bool {
 	return isLoop(t) || t == parser.N_STMT_SWITCH
 }
 
+// the loop whose test is a truthy literal is endless
+func isTruthyLit(a *AnalysisCtx, node parser.Node) bool {
+	switch node.Type() {
+	case parser.N_LIT_BOOL:
+		return node.(*parser.BoolLit).Val()
+	case parser.N_LIT_STR:
+		return node.(*parser.StrLit).Val() != ""
+	case parser.N_LIT_NUM:
+		txt := strings.TrimSuffix(strings.ReplaceAll(parser.NodeText(node, a.graph.s), "_", ""), "n")
+		if i, err := strconv.ParseUint(txt, 0, 64); err == nil {
+			return i != 0
+		}
+		f, err := strconv.ParseFloat(txt, 64)
+		return err == nil && f != 0
+	}
+	return node.Type().IsLit() && node.Type() != parser.N_LIT_NULL
+}
+
 func isAtom(t parser.NodeType) bool {
 	_, ok := walk.AtomNodeTypes[t]
 	return ok
@@ -969,7 +990,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		link(ac, vn, EK_JMP, ET_JMP_T|ET_JMP_F, EK_JMP, ET_NONE, exit, LF_NONE)
 		link(ac, vn, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 
-		if tn := n.Test(); tn != nil && tn.Type().IsLit() {
+		if tn := n.Test(); tn != nil && isTruthyLit(ac, tn) {
 			j := test.FindOutEdge(EK_JMP, ET_JMP_F, false)
 			j.Kind = EK_SEQ
 			j.Tag = ET_CUT
@@ -983,7 +1004,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		test := ac.popExpr()
 		enter := ac.popStmt()
 
-		if !n.Test().Type().IsLit() {
+		if !isTruthyLit(ac, n.Test()) {
 			test.newJmpOut(ET_JMP_F)
 		}
 
@@ -997,7 +1018,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		link(ac, body, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, test, LF_NONE)
 		body.mrkSeqOutAsLoop()
 
-		if n.Test().Type().IsLit() {
+		if isTruthyLit(ac, n.Test()) {
 			body.addCutOutEdge()
 		}
 
@@ -1051,7 +1072,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		link(ac, test, EK_JMP, ET_NONE, EK_JMP, ET_NONE, exit, LF_NONE)
 		link(ac, vn, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 
-		if n.Test().Type().IsLit() {
+		if isTruthyLit(ac, n.Test()) {
 			j := test.FindOutEdge(EK_JMP, ET_JMP_F, false)
 			j.Kind = EK_SEQ
 			j.Tag = ET_CUT
-- 
2.43.0


From 414f3bb13f02f166b7abfb0fa7cec357b6f7c73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:06 +0000
Subject: [PATCH 53/62] fix: graphs of exported functions, functions as bodies,
 holes, bare yields and parallel edges

---
 ecma/analysis/ctrlflow.go | 32 +++++++++++++++++++++++++-------
 ecma/analysis/graph.go    |  2 +-
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/ecma/analysis/ctrlflow.go b/ecma/analysis/ctrlflow.go
index dd8c961..f99f70b 100644
--- a/ecma/analysis/ctrlflow.go
+++ b/ecma/analysis/ctrlflow.go
@@ -232,14 +232,16 @@ func handleBefore(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			enterFnGraph(node, ctx, true)
 		}
 
-		if pAstTyp == parser.N_STMT_IF || isLoop(pAstTyp) || pAstTyp == parser.N_STMT_LABEL ||
+		if astTyp == parser.N_STMT_FN || astTyp == parser.N_EXPR_FN {
+			// the fn is linked to the `prevStmt` in `enterFnGraph`
+		} else if pAstTyp == parser.N_STMT_IF || isLoop(pAstTyp) || pAstTyp == parser.N_STMT_LABEL ||
 			pAstTyp == parser.N_STMT_TRY || pAstTyp == parser.N_CATCH || pAstTyp == parser.N_STMT_WITH ||
 			pAstTyp == parser.N_STMT_EXPORT || pAstTyp == parser.N_STMT_CLASS || pAstTyp == parser.N_STATIC_BLOCK {
 			// just pushing `enter` into stack without linking to the `prevStmt` to imitate a new branch
 			// the forked branch will be linked to its source branch point in the post-process listener
 			// of its astNode
 			ac.pushStmt(blk)
-		} else if astTyp != parser.N_STMT_FN && astTyp != parser.N_EXPR_FN {
+		} else {
 			prev := ac.popStmt()
 			scope := ctx.Scope()
 			flag := LF_NONE
@@ -273,7 +275,11 @@ func enterFnGraph(node parser.Node, ctx *walk.VisitorCtx, stmt bool) {
 	b := ac.graph.newBasicBlk()
 	b.addNode(newInfoNode(node, true, node.Type().String()))
 
-	if stmt {
+	pAstTyp := ctx.ParentNodeType()
+	if stmt && (pAstTyp == parser.N_STMT_IF || pAstTyp == parser.N_STMT_LABEL) {
+		// the fn is the body of its parent, it will be linked in the post-process listener of its parent
+		ac.pushStmt(b)
+	} else if stmt {
 		// the info node should be connected to previous block if its origin is fnStmt
 		// that's because the link strategy of stmt
 		prev := ac.popStmt()
@@ -403,7 +409,13 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 	case parser.N_LIT_ARR:
 		n := node.(*parser.ArrLit)
 
-		head, tail := ac.popExprsAndLink(len(n.Elems()))
+		cnt := 0
+		for _, el := range n.Elems() {
+			if el != nil {
+				cnt += 1
+			}
+		}
+		head, tail := ac.popExprsAndLink(cnt)
 
 		enter := ac.popExpr()
 		exit := ac.newExit(node, "")
@@ -636,7 +648,10 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		ac.pushExpr(grpBlock(ac, enter, exit))
 
 	case parser.N_PAT_REST, parser.N_SPREAD, parser.N_EXPR_YIELD, parser.N_EXPR_CHAIN:
-		expr := ac.popExpr()
+		var expr *Block
+		if astTyp != parser.N_EXPR_YIELD || node.(*parser.YieldExpr).Arg() != nil {
+			expr = ac.popExpr()
+		}
 		enter := ac.popExpr()
 		exit := ac.newExit(node, "")
 
@@ -1069,6 +1084,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		vn.addOutlets(body.xOutEdges())
 
 		exit := ac.newExit(node, "")
+		resolveBrk(ac, ctx.ScopeId(), node, exit, false)
 		link(ac, test, EK_JMP, ET_NONE, EK_JMP, ET_NONE, exit, LF_NONE)
 		link(ac, vn, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 
@@ -1674,14 +1690,16 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			head, tail = ac.popExprsAndLink(len(n.Specs()))
 		} else if n.Dec() != nil {
 			head = ac.popExpr()
-			if head == nil {
+			if head == nil && !isFn(n.Dec().Type()) {
 				head = enter
 				enter = ac.popStmt()
 			}
 			tail = head
 		}
 
-		if head != nil {
+		if head == nil && src == nil {
+			link(ac, enter, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
+		} else if head != nil {
 			link(ac, enter, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, head, LF_NONE)
 
 			if src != nil {
diff --git a/ecma/analysis/graph.go b/ecma/analysis/graph.go
index 7a056a9..6f00044 100644
--- a/ecma/analysis/graph.go
+++ b/ecma/analysis/graph.go
@@ -93,7 +93,7 @@ func (e *Edge) Key() string {
 	if e.Dst != nil {
 		to = e.Dst.DotId()
 	}
-	return from + "_" + to
+	return from + "_" + to + "_" + e.Tag.String() + e.Tag.DotColor()
 }
 
 func (e *Edge) Dot() string {
-- 
2.43.0


From e805264bab32ad5cf487ddb95899c493009973a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:30 +0000
Subject: [PATCH 54/62] fix: values of expressions in the evaluator and
 branches collected by them

---
 ecma/astutil/astutil.go |  83 ++++++++++++---
 ecma/exec/vm.go         | 223 +++++++++++++++++++++++++++++++++++-----
 2 files changed, 268 insertions(+), 38 deletions(-)

diff --git a/ecma/astutil/astutil.go b/ecma/astutil/astutil.go
index 8784bdb..1ed4fe0 100644
--- a/ecma/astutil/astutil.go
+++ b/ecma/astutil/astutil.go
@@ -180,19 +180,43 @@ func NodeToSwitchBranches(node parser.Node) []*SwitchBranch {
 	return bs
 }
 
+func isTrue(test parser.Node, vars map[string]interface{}, p *parser.Parser) (bool, error) {
+	v, err := exec.NewExprEvaluator(test, p).Exec(vars).GetResult()
+	return exec.ToBool(v), err
+}
+
 func SelectTrueBranches(node parser.Node, vars map[string]interface{}, p *parser.Parser) []parser.Node {
+	if node.Type() == parser.N_STMT_IF {
+		n := node.(*parser.IfStmt)
+		tbs := SelectTrueBranches(n.Test(), vars, p)
+		ok, err := isTrue(n.Test(), vars, p)
+		if err != nil {
+			return tbs
+		}
+		if ok {
+			return append(tbs, n.Cons())
+		}
+		if n.Alt() == nil {
+			return tbs
+		}
+		if n.Alt().Type() == parser.N_STMT_IF {
+			return append(tbs, SelectTrueBranches(n.Alt(), vars, p)...)
+		}
+		return append(tbs, n.Alt())
+	}
+
 	bs := NodeToSwitchBranches(node)
 	tbs := []parser.Node{}
 	for _, b := range bs {
 		if b.test == nil {
 			tbs = append(tbs, b.body)
+			continue
 		}
-		v, err := exec.NewExprEvaluator(b.test, p).Exec(vars).GetResult()
+		ok, err := isTrue(b.test, vars, p)
 		if err != nil {
 			continue
 		}
-		bv := exec.ToBool(v)
-		if (!b.negative && bv || b.negative && !bv) && b.body != nil {
+		if ok != b.negative && b.body != nil {
 			tbs = append(tbs, b.body)
 		}
 	}
@@ -205,16 +229,51 @@ func CollectNodesInTrueBranches(node parser.Node, typ []parser.NodeType, vars ma
 	ret := []parser.Node{}
 	wc := walk.NewWalkCtx(node, nil)
 
-	walkTrueBranches := func(node parser.Node, key string, ctx *walk.VisitorCtx) {
-		subs := SelectTrueBranches(node, vars, p)
-		for _, sub := range subs {
-			walk.VisitNode(sub, key, ctx)
+	walk.SetVisitor(&wc.Visitors, parser.N_STMT_IF, func(node parser.Node, key string, ctx *walk.VisitorCtx) {
+		n := node.(*parser.IfStmt)
+		walk.VisitNode(n.Test(), key, ctx)
+		if ok, err := isTrue(n.Test(), vars, p); err == nil {
+			if ok {
+				walk.VisitNode(n.Cons(), key, ctx)
+			} else {
+				walk.VisitNode(n.Alt(), key, ctx)
+			}
 		}
-	}
-
-	walk.SetVisitor(&wc.Visitors, parser.N_STMT_IF, walkTrueBranches)
-	walk.SetVisitor(&wc.Visitors, parser.N_EXPR_BIN, walkTrueBranches)
-	walk.SetVisitor(&wc.Visitors, parser.N_EXPR_COND, walkTrueBranches)
+	})
+	walk.SetVisitor(&wc.Visitors, parser.N_EXPR_COND, func(node parser.Node, key string, ctx *walk.VisitorCtx) {
+		n := node.(*parser.CondExpr)
+		walk.VisitNode(n.Test(), key, ctx)
+		if ok, err := isTrue(n.Test(), vars, p); err == nil {
+			if ok {
+				walk.VisitNode(n.Cons(), key, ctx)
+			} else {
+				walk.VisitNode(n.Alt(), key, ctx)
+			}
+		}
+	})
+	walk.SetVisitor(&wc.Visitors, parser.N_EXPR_BIN, func(node parser.Node, key string, ctx *walk.VisitorCtx) {
+		n := node.(*parser.BinExpr)
+		walk.VisitNode(n.Lhs(), key, ctx)
+		v, err := exec.NewExprEvaluator(n.Lhs(), p).Exec(vars).GetResult()
+		if err != nil {
+			return
+		}
+		switch n.Op() {
+		case parser.T_AND:
+			if !exec.ToBool(v) {
+				return
+			}
+		case parser.T_OR:
+			if exec.ToBool(v) {
+				return
+			}
+		case parser.T_NULLISH:
+			if v != nil {
+				return
+			}
+		}
+		walk.VisitNode(n.Rhs(), key, ctx)
+	})
 
 	for _, t := range typ {
 		walk.AddNodeAfterListener(&wc.Listeners, t, &walk.Listener{
diff --git a/ecma/exec/vm.go b/ecma/exec/vm.go
index 1e5f63d..9215b40 100644
--- a/ecma/exec/vm.go
+++ b/ecma/exec/vm.go
@@ -2,10 +2,13 @@ package exec
 
 import (
 	"container/list"
+	"errors"
 	"fmt"
 	"math"
+	"math/big"
 	"reflect"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/hsiaosiyuan0/mole/ecma/parser"
@@ -32,7 +35,7 @@ var builtinProto = map[reflect.Type]map[string]NativeFn{
 			arr := this.([]interface{})
 			target := args.Get(0)
 			for _, arg := range arr {
-				if reflect.DeepEqual(arg, target) {
+				if StrictEq(arg, target) || isNaN(arg) && isNaN(target) {
 					return true
 				}
 			}
@@ -105,7 +108,7 @@ func (ee *ExprEvaluator) init() {
 			}
 
 			name := node.(*parser.Ident).Val()
-			if ctx.ParentNode().Type() == parser.N_EXPR_MEMBER && key == "Prop" {
+			if pn, ok := ctx.ParentNode().(*parser.MemberExpr); ok && key == "Prop" && !pn.Compute() {
 				ee.push(name)
 			} else if name == "undefined" {
 				ee.push(nil)
@@ -124,7 +127,10 @@ func (ee *ExprEvaluator) init() {
 			arrLen := len(n.Elems())
 			arr := make([]interface{}, arrLen)
 			for i := len(n.Elems()) - 1; i >= 0; i-- {
-				arr[i] = ee.pop()
+				// holes are not visited
+				if n.Elems()[i] != nil {
+					arr[i] = ee.pop()
+				}
 			}
 			ee.push(arr)
 		})
@@ -180,10 +186,14 @@ func (ee *ExprEvaluator) init() {
 			lhs := ee.pop()
 
 			switch n.Op() {
-			case parser.T_EQ, parser.T_EQ_S:
-				ee.push(reflect.DeepEqual(lhs, rhs))
-			case parser.T_NE, parser.T_NE_S:
-				ee.push(!reflect.DeepEqual(lhs, rhs))
+			case parser.T_EQ:
+				ee.push(LooseEq(lhs, rhs))
+			case parser.T_NE:
+				ee.push(!LooseEq(lhs, rhs))
+			case parser.T_EQ_S:
+				ee.push(StrictEq(lhs, rhs))
+			case parser.T_NE_S:
+				ee.push(!StrictEq(lhs, rhs))
 			case parser.T_ADD:
 				ee.push(Add(lhs, rhs))
 			case parser.T_SUB:
@@ -191,16 +201,27 @@ func (ee *ExprEvaluator) init() {
 			case parser.T_MUL:
 				ee.push(ToNum(lhs) * ToNum(rhs))
 			case parser.T_DIV:
-				r := ToNum(rhs)
-				if r == 0 {
-					ee.push(math.NaN())
+				ee.push(ToNum(lhs) / ToNum(rhs))
+			case parser.T_AND:
+				if ToBool(lhs) {
+					ee.push(rhs)
 				} else {
-					ee.push(ToNum(lhs) - r)
+					ee.push(lhs)
 				}
-			case parser.T_AND:
-				ee.push(ToBool(lhs) && ToBool(rhs))
 			case parser.T_OR:
-				ee.push(ToBool(lhs) || ToBool(rhs))
+				if ToBool(lhs) {
+					ee.push(lhs)
+				} else {
+					ee.push(rhs)
+				}
+			case parser.T_NULLISH:
+				if lhs == nil {
+					ee.push(rhs)
+				} else {
+					ee.push(lhs)
+				}
+			default:
+				ee.push(nil)
 			}
 		})
 
@@ -216,6 +237,10 @@ func (ee *ExprEvaluator) init() {
 			switch n.Op() {
 			case parser.T_NOT:
 				ee.push(!ToBool(arg))
+			case parser.T_ADD:
+				ee.push(ToNum(arg))
+			case parser.T_SUB:
+				ee.push(-ToNum(arg))
 			default:
 				ee.push(false)
 			}
@@ -265,6 +290,7 @@ func (ee *ExprEvaluator) GetResult() (interface{}, error) {
 }
 
 func Add(a, b interface{}) interface{} {
+	a, b = toPrimitive(a), toPrimitive(b)
 	_, sa := a.(string)
 	_, sb := b.(string)
 	if sa || sb {
@@ -274,22 +300,160 @@ func Add(a, b interface{}) interface{} {
 	return ToNum(a) + ToNum(b)
 }
 
+// arrays and objects are converted to strings before they take part in an operation
+func toPrimitive(v interface{}) interface{} {
+	switch v.(type) {
+	case []interface{}, map[string]interface{}:
+		return ToStr(v)
+	}
+	return v
+}
+
+func isNaN(v interface{}) bool {
+	f, ok := v.(float64)
+	return ok && math.IsNaN(f)
+}
+
+func isNum(v interface{}) bool {
+	switch v.(type) {
+	case float64, int:
+		return true
+	}
+	return false
+}
+
+// the strict equality, arrays and objects are compared by their identities
+func StrictEq(a, b interface{}) bool {
+	if isNum(a) && isNum(b) {
+		return ToNum(a) == ToNum(b)
+	}
+	switch av := a.(type) {
+	case nil:
+		return b == nil
+	case string:
+		bv, ok := b.(string)
+		return ok && av == bv
+	case bool:
+		bv, ok := b.(bool)
+		return ok && av == bv
+	case []interface{}:
+		bv, ok := b.([]interface{})
+		return ok && len(av) == len(bv) && reflect.ValueOf(av).Pointer() == reflect.ValueOf(bv).Pointer() && len(av) > 0
+	case map[string]interface{}:
+		bv, ok := b.(map[string]interface{})
+		return ok && reflect.ValueOf(av).Pointer() == reflect.ValueOf(bv).Pointer()
+	}
+	return false
+}
+
+func isObj(v interface{}) bool {
+	switch v.(type) {
+	case []interface{}, map[string]interface{}:
+		return true
+	}
+	return false
+}
+
+func LooseEq(a, b interface{}) bool {
+	if a == nil || b == nil {
+		return a == nil && b == nil
+	}
+	if isObj(a) && isObj(b) {
+		return StrictEq(a, b)
+	}
+	a, b = toPrimitive(a), toPrimitive(b)
+	_, sa := a.(string)
+	_, sb := b.(string)
+	if sa && sb {
+		return StrictEq(a, b)
+	}
+	return ToNum(a) == ToNum(b)
+}
+
 func ToNum(v interface{}) float64 {
 	switch vv := v.(type) {
 	case float64:
 		return vv
-	case string:
-		if i, err := strconv.ParseFloat(vv, 64); err == nil {
-			return i
+	case int:
+		return float64(vv)
+	case bool:
+		if vv {
+			return 1
 		}
+		return 0
+	case string:
+		return strToNum(vv)
+	case []interface{}, map[string]interface{}:
+		return strToNum(ToStr(v))
 	}
 	return math.NaN()
 }
 
+const whiteSpaces = "\t\n\v\f\r \u00a0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000\ufeff"
+
+func strToNum(s string) float64 {
+	s = strings.Trim(s, whiteSpaces)
+	if s == "" {
+		return 0
+	}
+	if len(s) > 2 && s[0] == '0' {
+		base := 0
+		switch s[1] {
+		case 'x', 'X':
+			base = 16
+		case 'o', 'O':
+			base = 8
+		case 'b', 'B':
+			base = 2
+		}
+		if base != 0 {
+			i, ok := new(big.Int).SetString(s[2:], base)
+			if !ok || s[2] == '-' || s[2] == '+' {
+				return math.NaN()
+			}
+			f, _ := new(big.Float).SetInt(i).Float64()
+			return f
+		}
+	}
+	switch s {
+	case "Infinity", "+Infinity":
+		return math.Inf(1)
+	case "-Infinity":
+		return math.Inf(-1)
+	}
+	// the notations `inf`, `nan`, `0x1p-2` and `1_000` are for Go only
+	if strings.Trim(s, "+-.0123456789eE") != "" {
+		return math.NaN()
+	}
+	f, err := strconv.ParseFloat(s, 64)
+	if err != nil && !errors.Is(err, strconv.ErrRange) {
+		return math.NaN()
+	}
+	return f
+}
+
+func numToStr(f float64) string {
+	switch {
+	case math.IsInf(f, 1):
+		return "Infinity"
+	case math.IsInf(f, -1):
+		return "-Infinity"
+	case f == 0:
+		return "0"
+	}
+	if a := math.Abs(f); a >= 1e21 || a < 1e-6 {
+		s := strconv.FormatFloat(f, 'e', -1, 64)
+		// the exponent has no leading zeros
+		i := strings.IndexByte(s, 'e') + 2
+		return s[:i] + strings.TrimLeft(s[i:], "0")
+	}
+	return strconv.FormatFloat(f, 'f', -1, 64)
+}
+
 func ToStr(v interface{}) string {
 	switch vv := v.(type) {
 	case float64:
-		return strconv.FormatFloat(vv, 'f', -1, 64)
+		return numToStr(vv)
 	case string:
 		return vv
 	case bool:
@@ -297,6 +461,16 @@ func ToStr(v interface{}) string {
 			return "true"
 		}
 		return "false"
+	case []interface{}:
+		elems := make([]string, len(vv))
+		for i, el := range vv {
+			if el != nil {
+				elems[i] = ToStr(el)
+			}
+		}
+		return strings.Join(elems, ",")
+	case map[string]interface{}:
+		return "[object Object]"
 	}
 	return fmt.Sprintf("%v", v)
 }
@@ -304,7 +478,7 @@ func ToStr(v interface{}) string {
 func ToBool(v interface{}) bool {
 	switch vv := v.(type) {
 	case float64:
-		return vv != 0
+		return vv != 0 && !math.IsNaN(vv)
 	case int:
 		return vv != 0
 	case string:
@@ -353,18 +527,15 @@ func GetElem(obj, prop interface{}) interface{} {
 		return nil
 	}
 
-	p := ToNum(prop)
-	if math.IsNaN(p) || p < 0 {
-		return nil
-	}
-
 	arr, ok := obj.([]interface{})
 	if !ok {
 		return nil
 	}
 
-	i := int(p)
-	if i > len(arr)-1 {
+	// only the canonical form of the index refers to the element
+	p := ToStr(prop)
+	i, err := strconv.Atoi(p)
+	if err != nil || strconv.Itoa(i) != p || i < 0 || i > len(arr)-1 {
 		return nil
 	}
 	return arr[i]
-- 
2.43.0


From 0389cdf51d6b080891698cd4b691ef5009c569ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:12 +0000
Subject: [PATCH 55/62] fix: plain JavaScript is read the same way in
 TypeScript mode

---
 ecma/parser/lexer.go  |  2 +-
 ecma/parser/parser.go | 91 ++++++++++++++++++++++++-------------------
 ecma/parser/token.go  |  2 +-
 ecma/parser/ts.go     | 69 +++++++++++++++++++++++++++-----
 4 files changed, 112 insertions(+), 52 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 957b21b..09071d7 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -833,7 +833,7 @@ func (l *Lexer) readSymbol() *Token {
 		} else if l.src.AheadIsCh('<') {
 			c := l.src.Ahead2nd()
 			spaceAhead := unicode.IsSpace(c)
-			if !spaceAhead && (l.IsMode(LM_TS) || l.IsMode(LM_TS_TYP_ARG)) {
+			if !spaceAhead && c != '=' && (l.IsMode(LM_TS) || l.IsMode(LM_TS_TYP_ARG)) {
 				// prev is lsh, here just advance the second `<` of lsh operator
 				if l.lsh(ofst) {
 					val = T_LT
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 7138f19..71ba316 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -393,6 +393,8 @@ var errEof = errors.New("eof")
 // https://tc39.es/ecma262/multipage/ecmascript-language-statements-and-declarations.html#prod-Statement
 func (p *Parser) stmt() (node Node, err error) {
 	tok := p.lexer.PeekStmtBegin()
+	// `tok` is reused by the lexer so it is only valid before the statement is parsed
+	isEnum := p.aheadIsTsEnum(tok)
 
 	scope := p.scope()
 	allowDec := !scope.IsKind(SPK_INTERIM)
@@ -439,7 +441,7 @@ func (p *Parser) stmt() (node Node, err error) {
 		case T_NEW, T_THIS, T_SUPER:
 			node, err = p.exprStmt()
 		}
-		if p.aheadIsTsEnum(tok) {
+		if isEnum {
 			node, err = p.tsEnum(span.Range{Lo: 1, Hi: 0}, false)
 		}
 	} else if tok.value == T_BRACE_L {
@@ -2261,7 +2263,8 @@ func (p *Parser) switchCase(tok *Token) (*SwitchCase, error) {
 	var test Node
 	var err error
 	if tok.value == T_CASE {
-		test, err = p.expr()
+		// the colon is the end of the test instead of the beginning of a type annotation
+		test, err = p.seqExpr(nil, false, true)
 		if err != nil {
 			return nil, err
 		}
@@ -4235,14 +4238,14 @@ func (p *Parser) exprStmt() (Node, error) {
 
 // https://tc39.es/ecma262/multipage/ecmascript-language-expressions.html#prod-Expression
 func (p *Parser) expr() (Node, error) {
-	return p.seqExpr(nil, false)
+	return p.seqExpr(nil, false, false)
 }
 
 // `notGT` is `true` tells the later subroutine does NOT treat the `>` symbol as the greatThen operator
-func (p *Parser) seqExpr(expr Node, notGT bool) (Node, error) {
+func (p *Parser) seqExpr(expr Node, notGT bool, notColon bool) (Node, error) {
 	var err error
 	if expr == nil {
-		expr, err = p.assignExpr(true, notGT, false, false)
+		expr, err = p.assignExpr(true, notGT, false, notColon)
 		if err != nil {
 			return nil, err
 		}
@@ -4262,7 +4265,7 @@ func (p *Parser) seqExpr(expr Node, notGT bool) (Node, error) {
 		tok := p.lexer.Peek()
 		if tok.value == T_COMMA {
 			p.lexer.Next()
-			expr, err = p.assignExpr(true, notGT, false, false)
+			expr, err = p.assignExpr(true, notGT, false, notColon)
 			if err != nil {
 				return nil, err
 			}
@@ -4362,7 +4365,7 @@ func (p *Parser) assignExpr(checkLhs bool, notGT bool, notHook bool, notColon bo
 		p.acceptCoverInits(span.Range{Lo: lhs.Range().Lo, Hi: opLoc.Lo})
 	}
 
-	rhs, err := p.assignExpr(true, notGT, false, false)
+	rhs, err := p.assignExpr(true, notGT, false, notColon)
 	if err != nil {
 		return nil, err
 	}
@@ -4489,7 +4492,7 @@ func (p *Parser) condExpr(test Node, notGT bool, notHook bool, notColon bool) (N
 		return nil, err
 	}
 
-	alt, err := p.assignExpr(true, notGT, false, false)
+	alt, err := p.assignExpr(true, notGT, false, notColon)
 	if err != nil {
 		return nil, err
 	}
@@ -4769,20 +4772,20 @@ func (p *Parser) newExpr(nested bool) (Node, error) {
 	ti := p.newTypInfo(N_EXPR_NEW)
 	ahead := p.lexer.Peek()
 	if p.aheadIsArgList(ahead) {
-		p.pushState()
-		args, _, typArgs, _, err = p.argList(true, true, span.Range{}, false)
-		if err != nil {
-			// `new A < T`
-			if err == p.errTypArgMissingGT {
-				p.popState()
-
-				e := err.(ErrTypArgMissingGT)
-				p.addLtTok(e.rng.Lo)
+		if ahead.value == T_LT {
+			typArgs, err = p.tsTryCallTypArgs(true, false)
+			if err != nil {
+				return nil, err
+			}
+			if typArgs == nil {
+				// `new A < T`
 				return &NewExpr{N_EXPR_NEW, p.finRng(rng), expr, nil, span.Range{}, ti}, nil
 			}
+		}
+		args, _, typArgs, _, err = p.argListAfterTypArgs(true, true, typArgs)
+		if err != nil {
 			return nil, err
 		}
-		p.discardState()
 
 		if ti != nil {
 			if err = p.tsCheckTypArgs(typArgs); err != nil {
@@ -4926,31 +4929,23 @@ func (p *Parser) callExpr(callee Node, root bool, directOpt bool, opt span.Range
 		if p.aheadIsArgList(tok) {
 			aheadLoc := tok.rng
 
-			// below pair `pushState` and `popState` is used to dealing with
-			// the ambiguity between `<` in typArgs and `<` operator in binExpr
-			lt := tok.value == T_LT
-			if lt {
-				p.pushState()
+			var typArgs Node
+			if tok.value == T_LT {
+				var err error
+				// the `<` in `f?.<T>()` cannot be the operator
+				typArgs, err = p.tsTryCallTypArgs(true, directOpt)
+				if err != nil {
+					return nil, span.Range{}, err
+				}
+				if typArgs == nil {
+					break
+				}
 			}
 			// `superTypArgs` is used to represent expr like `(class extends f()<T> {})`
-			args, _, typArgs, superTypArgs, err := p.argList(true, true, span.Range{}, true)
+			args, _, typArgs, superTypArgs, err := p.argListAfterTypArgs(true, true, typArgs)
 			if err != nil {
-				if err == p.errTypArgMissingGT && firstOpt.Empty() {
-					p.popState()
-
-					e := err.(ErrTypArgMissingGT)
-					if p.lexer.maybeLsh(e.rng.Lo) {
-						p.lexer.tryLsh(e.rng.Lo)
-					} else {
-						p.addLtTok(e.rng.Lo)
-					}
-					return callee, span.Range{}, nil
-				}
 				return nil, span.Range{}, err
 			}
-			if lt {
-				p.discardState()
-			}
 
 			if superTypArgs != nil {
 				if wt, ok := callee.(NodeWithTypInfo); ok {
@@ -5676,6 +5671,11 @@ func (p *Parser) argList(check bool, incall bool, asyncLoc span.Range, noJsx boo
 		}
 	}
 
+	return p.argListAfterTypArgs(check, incall, typArgs)
+}
+
+func (p *Parser) argListAfterTypArgs(check bool, incall bool, typArgs Node) ([]Node, span.Range, Node, Node, error) {
+	defer p.permitIn()()
 	ahead := p.lexer.Peek()
 	av := ahead.value
 	if av != T_PAREN_L {
@@ -5822,7 +5822,7 @@ func (p *Parser) binExpr(lhs Node, minPcd int, logic bool, nullish bool, notGT b
 
 		var rhs Node
 		if op != T_TS_AS {
-			rhs, err = p.unaryExpr(nil, span.Range{}, false)
+			rhs, err = p.unaryExpr(nil, span.Range{}, notColon)
 		} else {
 			rhs, err = p.tsTyp(false, true, false)
 		}
@@ -5834,7 +5834,7 @@ func (p *Parser) binExpr(lhs Node, minPcd int, logic bool, nullish bool, notGT b
 		aheadOp := ahead.IsBin(notIn, ts)
 		kind = TokenKinds[aheadOp]
 		for aheadOp != T_ILLEGAL && (kind.Pcd > pcd || kind.Pcd == pcd && kind.RightAssoc) {
-			rhs, err = p.binExpr(rhs, kind.Pcd, logic, nullish, notGT, false)
+			rhs, err = p.binExpr(rhs, kind.Pcd, logic, nullish, notGT, notColon)
 			if err != nil {
 				return nil, err
 			}
@@ -6203,7 +6203,9 @@ func (p *Parser) arrowFn(rng span.Range, scopeBase int, args []Node, params []No
 		if ps.IsKind(SPK_NOT_IN) {
 			scope.AddKind(SPK_NOT_IN)
 		}
-		body, err = p.assignExpr(true, false, false, false)
+		// the colon after the body is not the beginning of a type annotation
+		notColon := p.lexer.Peek().value != T_PAREN_L
+		body, err = p.assignExpr(true, false, false, notColon)
 		if err != nil {
 			return nil, err
 		}
@@ -6772,6 +6774,13 @@ func (p *Parser) decorator() (Node, error) {
 	if err != nil {
 		return nil, err
 	}
+	if p.ts && p.lexer.Peek().value == T_LT {
+		// the `<` cannot be the operator, so it must be the head of the typArgs of a call
+		if _, err = p.tsTryTypArgs(span.Range{}, true); err != nil {
+			return nil, err
+		}
+		return nil, p.errorTok(p.lexer.Peek())
+	}
 	return &Decorator{N_DECORATOR, p.finRng(loc), expr}, nil
 }
 
diff --git a/ecma/parser/token.go b/ecma/parser/token.go
index b2c4eaf..365d9cf 100644
--- a/ecma/parser/token.go
+++ b/ecma/parser/token.go
@@ -69,7 +69,7 @@ func (t *Token) IsBin(notIn bool, ts bool) TokenValue {
 	if !notIn && IsName(t, "in", false) {
 		return T_IN
 	}
-	if ts && IsName(t, "as", false) {
+	if ts && !t.afterLineTerm && IsName(t, "as", false) {
 		return T_TS_AS
 	}
 	return T_ILLEGAL
diff --git a/ecma/parser/ts.go b/ecma/parser/ts.go
index 6f5fc91..8c5b9ec 100644
--- a/ecma/parser/ts.go
+++ b/ecma/parser/ts.go
@@ -1609,8 +1609,11 @@ func (p *Parser) tsTryTypArgs(asyncLoc span.Range, noJsx bool) (Node, error) {
 	if ahead.value != T_LT {
 		return nil, nil
 	}
-	if !p.ts && p.feat&FEAT_JSX != 0 {
-		return p.jsx(true, false)
+	if !p.ts {
+		if p.feat&FEAT_JSX != 0 {
+			return p.jsx(true, false)
+		}
+		return nil, nil
 	}
 	if !asyncLoc.Empty() {
 		return p.tsTryTypArgsAfterAsync(asyncLoc)
@@ -1620,6 +1623,7 @@ func (p *Parser) tsTryTypArgs(asyncLoc span.Range, noJsx bool) (Node, error) {
 	node, err := p.tsTypArgs(true, noJsx || p.scope().IsKind(SPK_CLASS_EXTEND_SUPER))
 	if err != nil {
 		if err != errTypArgMaybeJsx {
+			p.discardState()
 			return nil, err
 		}
 
@@ -1642,6 +1646,38 @@ func (p *Parser) tsTryTypArgs(asyncLoc span.Range, noJsx bool) (Node, error) {
 	return node, nil
 }
 
+// deals with the ambiguity between `<` in the typArgs of a call and the `<` operator: if there are
+// no typArgs which are followed by something they can precede, the state is restored with the `<`
+// marked as the operator and `nil` is returned, unless the `<` cannot be the operator
+func (p *Parser) tsTryCallTypArgs(noJsx, must bool) (Node, error) {
+	if must {
+		return p.tsTryTypArgs(span.Range{}, noJsx)
+	}
+	ofst := p.lexer.Peek().rng.Lo
+	p.pushState()
+	typArgs, err := p.tsTryTypArgs(span.Range{}, noJsx)
+	if err == nil && typArgs != nil {
+		av := p.lexer.Peek().value
+		if av == T_PAREN_L || av == T_TPL_HEAD || p.scope().IsKind(SPK_CLASS_EXTEND_SUPER) {
+			p.discardState()
+			return typArgs, nil
+		}
+	}
+
+	if e, ok := err.(*ParserError); ok && e.msg == ERR_TYPE_ARG_EMPTY {
+		p.discardState()
+		return nil, err
+	}
+
+	p.popState()
+	if p.lexer.maybeLsh(ofst) {
+		p.lexer.tryLsh(ofst)
+	} else {
+		p.addLtTok(ofst)
+	}
+	return nil, nil
+}
+
 // consider ambiguity of the first `<` in below example:
 //
 // ```
@@ -1658,7 +1694,7 @@ func (p *Parser) tsTryTypArgsAfterAsync(asyncLoc span.Range) (Node, error) {
 		return nil, err
 	}
 	ltRng := binExpr.(*BinExpr).opLoc
-	seq, err := p.seqExpr(binExpr, true)
+	seq, err := p.seqExpr(binExpr, true, false)
 	if err != nil {
 		return nil, err
 	}
@@ -1851,12 +1887,22 @@ func (p *Parser) tsCallSig(typParams Node, rng span.Range, kind PropKind) (Node,
 	return &TsCallSig{N_TS_CALL_SIG, p.finRng(rng), typParams, params, typAnnot}, nil
 }
 
+// whether the token after the ahead one can be the name or the keyword following the leading
+// word of a ts declaration, otherwise that word is just an identifier
+func (p *Parser) tsAheadIsDecName() bool {
+	ahead := p.lexer.Peek2nd()
+	if ahead.afterLineTerm || ahead.value == T_INSTANCE_OF || ahead.value == T_IN || IsName(ahead, "in", false) {
+		return false
+	}
+	return ahead.value == T_NAME || ahead.IsKw() || ahead.IsCtxKw()
+}
+
 func (p *Parser) aheadIsTsTypDec(tok *Token, asterisk bool) bool {
 	if !p.ts || tok.value != T_NAME || tok.text != "type" || tok.ContainsEscape() {
 		return false
 	}
 	ahead := p.lexer.Peek2nd()
-	return !ahead.afterLineTerm && (ahead.Kind().StartExpr || asterisk && ahead.value == T_MUL)
+	return p.tsAheadIsDecName() || !ahead.afterLineTerm && (ahead.value == T_STRING || ahead.value == T_BRACE_L || asterisk && ahead.value == T_MUL)
 }
 
 func (p *Parser) tsTypDec(rng span.Range, skipDec bool) (Node, error) {
@@ -1934,7 +1980,7 @@ func (p *Parser) aheadIsTsItf(tok *Token) bool {
 		return false
 	}
 	ahead := p.lexer.Peek2nd()
-	return !ahead.afterLineTerm
+	return p.tsAheadIsDecName() || !ahead.afterLineTerm && ahead.value == T_BRACE_L
 }
 
 func (p *Parser) tsItfExtClause() ([]Node, error) {
@@ -2165,7 +2211,7 @@ func (p *Parser) aheadIsTsNS(tok *Token) bool {
 	}
 	str := tok.text
 	ahead := p.lexer.Peek2nd()
-	return (str == "namespace" || str == "as") && !ahead.afterLineTerm
+	return str == "namespace" && p.tsAheadIsDecName() || str == "as" && !ahead.afterLineTerm && IsName(ahead, "namespace", false)
 }
 
 func (p *Parser) tsNS() (Node, error) {
@@ -2249,8 +2295,7 @@ func (p *Parser) aheadIsTsDec(tok *Token) bool {
 	if !p.ts || tok.value != T_NAME || tok.text != "declare" {
 		return false
 	}
-	ahead := p.lexer.Peek2nd()
-	return !ahead.afterLineTerm
+	return p.tsAheadIsDecName()
 }
 
 func (p *Parser) aheadIsModDec(tok *Token) bool {
@@ -2259,7 +2304,13 @@ func (p *Parser) aheadIsModDec(tok *Token) bool {
 	}
 	str := tok.text
 	ahead := p.lexer.Peek2nd()
-	return (str == "module" || str == "global") && !ahead.afterLineTerm
+	if ahead.afterLineTerm || tok.ContainsEscape() {
+		return false
+	}
+	if str == "global" {
+		return ahead.value == T_BRACE_L
+	}
+	return str == "module" && (ahead.value == T_STRING || ahead.value == T_NAME)
 }
 
 func (p *Parser) tsModDec() (*TsDec, error) {
-- 
2.43.0


From 6f102ef5fd48a8844334c959fcdb99f2e5cf611c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:31 +0000
Subject: [PATCH 56/62] fix: shifts, regexps after peeked tokens, colons after
 arrows, await and new in TypeScript mode

---
 ecma/parser/lexer.go  | 11 ++++++++---
 ecma/parser/parser.go | 25 +++++++++++++++++++------
 ecma/parser/ts.go     |  8 +++++++-
 3 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 09071d7..adecb86 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -483,6 +483,10 @@ func (l *Lexer) takeStmtCmts() []span.Range {
 }
 
 func (l *Lexer) advance() *Token {
+	// the token before the one to be peeked is the last one in the buffer if there is any
+	if tb := &l.state.tb; tb.readable() {
+		l.state.prtVal = tb.buf[(tb.w+TOKENS_BUF_LEN-1)%TOKENS_BUF_LEN].value
+	}
 	tok := l.lexTok()
 
 	// only update `prtVal` for telling whether ahead is regexp or not,
@@ -834,10 +838,11 @@ func (l *Lexer) readSymbol() *Token {
 			c := l.src.Ahead2nd()
 			spaceAhead := unicode.IsSpace(c)
 			if !spaceAhead && c != '=' && (l.IsMode(LM_TS) || l.IsMode(LM_TS_TYP_ARG)) {
-				// prev is lsh, here just advance the second `<` of lsh operator
 				if l.lsh(ofst) {
-					val = T_LT
-				} else if !l.maybeLsh(ofst) {
+					// it has been known as the lsh operator before the state was restored
+					l.src.Read()
+					val = T_LSH
+				} else {
 					l.maybeLshPos[ofst] = true
 					val = T_LT
 				}
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 71ba316..ceea186 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2888,7 +2888,9 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 			if ps.IsKind(SPK_NOT_IN) {
 				scope.AddKind(SPK_NOT_IN)
 			}
-			if body, err = p.assignExpr(true, false, false, false); err != nil {
+			// the colon after the body is not the beginning of a type annotation
+			notColon := p.lexer.Peek().value != T_PAREN_L
+			if body, err = p.assignExpr(true, false, false, notColon); err != nil {
 				return nil, err
 			}
 		} else if fn && !expr && tok.value == T_FUNC && tok.afterLineTerm && p.ts {
@@ -4541,7 +4543,7 @@ func (p *Parser) awaitExpr(tok *Token) (Node, error) {
 		return nil, p.errorAt(tok.value, tok.rng, ERR_AWAIT_OUTSIDE_ASYNC)
 	}
 
-	arg, err := p.unaryExpr(nil, span.Range{}, false)
+	arg, err := p.unaryExpr(nil, span.Range{}, true)
 	if err != nil {
 		return nil, err
 	}
@@ -5769,6 +5771,17 @@ func (p *Parser) checkOp(tok *Token) error {
 	return nil
 }
 
+// peeks the token which follows an operand, the `<` directly followed by another `<` at this
+// position is the lsh operator since the typArgs have been tried already
+func (p *Parser) peekBinOp() *Token {
+	tok := p.lexer.Peek()
+	if p.ts && tok.value == T_LT && p.lexer.maybeLsh(tok.rng.Lo) {
+		p.lexer.tryLsh(tok.rng.Lo)
+		tok = p.lexer.Peek()
+	}
+	return tok
+}
+
 // `logic` indicates that there is at least one logic expr in previous lhs group
 // `nullish` indicates that there is at least one nullish expr in previous lhs group
 // bypassing above two params to do the `nullish-can-not-along-with-logic` syntax check as
@@ -5784,7 +5797,7 @@ func (p *Parser) binExpr(lhs Node, minPcd int, logic bool, nullish bool, notGT b
 	ts := p.ts
 	notIn := p.scope().IsKind(SPK_NOT_IN)
 	for {
-		ahead := p.lexer.Peek()
+		ahead := p.peekBinOp()
 		op := ahead.IsBin(notIn, ts)
 		if op == T_ILLEGAL {
 			break
@@ -5830,7 +5843,7 @@ func (p *Parser) binExpr(lhs Node, minPcd int, logic bool, nullish bool, notGT b
 			return nil, err
 		}
 
-		ahead = p.lexer.Peek()
+		ahead = p.peekBinOp()
 		aheadOp := ahead.IsBin(notIn, ts)
 		kind = TokenKinds[aheadOp]
 		for aheadOp != T_ILLEGAL && (kind.Pcd > pcd || kind.Pcd == pcd && kind.RightAssoc) {
@@ -5838,7 +5851,7 @@ func (p *Parser) binExpr(lhs Node, minPcd int, logic bool, nullish bool, notGT b
 			if err != nil {
 				return nil, err
 			}
-			ahead = p.lexer.Peek()
+			ahead = p.peekBinOp()
 			aheadOp = ahead.IsBin(notIn, ts)
 			kind = TokenKinds[aheadOp]
 		}
@@ -5954,7 +5967,7 @@ func (p *Parser) memberExprObj() (Node, error) {
 		// the args in `new async()` belong to the newExpr
 		obj, err = p.ident(nil, false)
 	} else {
-		obj, err = p.primaryExpr(false)
+		obj, err = p.primaryExpr(true)
 	}
 	if err != nil {
 		return nil, err
diff --git a/ecma/parser/ts.go b/ecma/parser/ts.go
index 8c5b9ec..b58a638 100644
--- a/ecma/parser/ts.go
+++ b/ecma/parser/ts.go
@@ -1654,6 +1654,9 @@ func (p *Parser) tsTryCallTypArgs(noJsx, must bool) (Node, error) {
 		return p.tsTryTypArgs(span.Range{}, noJsx)
 	}
 	ofst := p.lexer.Peek().rng.Lo
+	scope := p.symtab.Cur
+	kind := scope.Kind
+	children := len(scope.Down)
 	p.pushState()
 	typArgs, err := p.tsTryTypArgs(span.Range{}, noJsx)
 	if err == nil && typArgs != nil {
@@ -1670,6 +1673,9 @@ func (p *Parser) tsTryCallTypArgs(noJsx, must bool) (Node, error) {
 	}
 
 	p.popState()
+	p.symtab.Cur = scope
+	scope.Kind = kind
+	scope.Down = scope.Down[:children]
 	if p.lexer.maybeLsh(ofst) {
 		p.lexer.tryLsh(ofst)
 	} else {
@@ -2310,7 +2316,7 @@ func (p *Parser) aheadIsModDec(tok *Token) bool {
 	if str == "global" {
 		return ahead.value == T_BRACE_L
 	}
-	return str == "module" && (ahead.value == T_STRING || ahead.value == T_NAME)
+	return str == "module" && (ahead.value == T_STRING || ahead.value == T_NAME && p.tsAheadIsDecName())
 }
 
 func (p *Parser) tsModDec() (*TsDec, error) {
-- 
2.43.0


From 6fa2476f5715bc156d58cf55dbfadcea5633ac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:57 +0000
Subject: [PATCH 57/62] fix: the cli reports errors and trees can be converted
 without positions

---
 cli/ast.go             | 25 +++++++++++++++++++------
 ecma/estree/convert.go | 14 ++++++++++----
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/cli/ast.go b/cli/ast.go
index 58250a7..b301183 100644
--- a/cli/ast.go
+++ b/cli/ast.go
@@ -37,7 +37,10 @@ func (a *AstInspector) Process(opts *Options) bool {
 	}
 
 	if opts.ast {
-		printJsAst(string(src), opts.file, opts.perf)
+		if _, err := printJsAst(string(src), opts.file, opts.perf); err != nil {
+			fmt.Fprintln(os.Stderr, err)
+			os.Exit(1)
+		}
 	}
 
 	return true
@@ -59,17 +62,18 @@ func printJsAst(src, file string, perf bool) (string, error) {
 	var ast parser.Node
 	var err error
 	if perf {
-		cpuProf, err := os.Create("cpu.prof")
+		var cpuProf, heap *os.File
+		cpuProf, err = os.Create("cpu.prof")
 		if err != nil {
 			return "", err
 		}
 		defer cpuProf.Close()
 
-		heap, err := os.Create("heap.out")
+		heap, err = os.Create("heap.out")
 		if err != nil {
 			return "", err
 		}
-		defer cpuProf.Close()
+		defer heap.Close()
 
 		_runtime.StartCPUProfile(cpuProf)
 		ast, err = p.Prog()
@@ -98,7 +102,9 @@ func printJsAst(src, file string, perf bool) (string, error) {
 	output := out.String()
 
 	outFile := assembleOutFile(file, "_ast")
-	ioutil.WriteFile(outFile, out.Bytes(), 0644)
+	if err = ioutil.WriteFile(outFile, out.Bytes(), 0644); err != nil {
+		return "", err
+	}
 	fmt.Printf("Result is also saved in: %s\n", outFile)
 
 	if ok := copyToClipboard(outFile); ok {
@@ -114,7 +120,14 @@ func copyToClipboard(file string) bool {
 		return false
 	}
 
-	cmd := exec.Command("bash", "-c", path+" < "+file)
+	content, err := os.Open(file)
+	if err != nil {
+		return false
+	}
+	defer content.Close()
+
+	cmd := exec.Command(path)
+	cmd.Stdin = content
 	err = cmd.Run()
 	return err == nil
 }
diff --git a/ecma/estree/convert.go b/ecma/estree/convert.go
index c8cb4c9..4de63a0 100644
--- a/ecma/estree/convert.go
+++ b/ecma/estree/convert.go
@@ -340,7 +340,9 @@ func locWithTypeInfo(node parser.Node, includeParamProp bool, s *span.Source, ct
 
 	firstRng, firstLoc := FirstLoc(s, ctx, starLocList...)
 	rng.Lo = firstRng.Lo
-	loc.Start = firstLoc.Start
+	if loc != nil {
+		loc.Start = firstLoc.Start
+	}
 
 	endLocList := []span.Range{}
 	if ti.TypAnnot() != nil {
@@ -350,14 +352,16 @@ func locWithTypeInfo(node parser.Node, includeParamProp bool, s *span.Source, ct
 
 	endRng, endLoc := LastLoc(s, ctx, endLocList...)
 	rng.Hi = endRng.Hi
-	loc.End = endLoc.End
+	if loc != nil {
+		loc.End = endLoc.End
+	}
 
 	return
 }
 
 func TplLocWithTag(n *parser.TplExpr, s *span.Source, ctx *ConvertCtx) *SrcLoc {
 	loc := CalcLoc(n, s, ctx)
-	if n.Tag() != nil {
+	if loc != nil && n.Tag() != nil {
 		tl := CalcLoc(n.Tag(), s, ctx)
 		loc.Start = tl.Start
 		loc.End = tl.End
@@ -408,7 +412,9 @@ func locWithDecorator(node parser.Node, ds []parser.Node, s *span.Source, ctx *C
 	}
 	d := ds[0]
 	dLoc := locOfNode(d, s, ctx)
-	loc.Start = dLoc.Start
+	if loc != nil {
+		loc.Start = dLoc.Start
+	}
 	rng.Lo = d.Range().Lo
 	return
 }
-- 
2.43.0


From d9d3f34b66d0682b6262f8985dc46cb14f05947c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:53 +0000
Subject: [PATCH 58/62] fix: names in computed keys and spreads of object
 literals are checked

---
 ecma/parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index ceea186..0539bb1 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4021,7 +4021,10 @@ func (p *Parser) propName(allowNamePVT bool, maybeMethod bool, tsRough bool) (No
 			scope.Kind |= scope.Up.Kind & (SPK_ASYNC | SPK_GENERATOR)
 		}
 		permitIn := p.permitIn()
+		checkName := p.checkName
+		p.checkName = true
 		name, err := p.assignExpr(true, false, false, false)
+		p.checkName = checkName
 		permitIn()
 		scope.Kind = kind
 		scope.EraseKind(SPK_PROP_NAME)
@@ -6408,7 +6411,10 @@ func (p *Parser) spread() (Node, error) {
 		return nil, p.errorTok(tok)
 	}
 
+	checkName := p.checkName
+	p.checkName = true
 	node, err := p.assignExpr(true, false, false, false)
+	p.checkName = checkName
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From d320904650dfeeff7ee49427278b1ea7c8cb2e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:56 +0000
Subject: [PATCH 59/62] fix: yield, await and shorthand defaults nested in
 arrow parameters, arguments in defaults, assignments to eval in arguments

---
 ecma/parser/parser.go | 112 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 93 insertions(+), 19 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 0539bb1..6988575 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -46,6 +46,9 @@ type Parser struct {
 	// the first shorthand property which is not identifier
 	badShorthand Node
 
+	// the `yield` and `await` expressions of the functions being parsed
+	suspends []Node
+
 	// the parsed decorators but have not been attached to the target nodes
 	hangingDecorators []Node
 
@@ -139,6 +142,7 @@ func (p *Parser) Setup(src *span.Source, opts *ParserOpts) {
 	p.ltTokens = map[uint32]bool{}
 	p.coverInits = nil
 	p.badShorthand = nil
+	p.suspends = nil
 	p.symtab = NewSymTab(opts.Externals)
 	p.loopStk = []Node{}
 	p.retsStk = [][]Node{}
@@ -275,15 +279,65 @@ func (p *Parser) positioned(err error) error {
 	return err
 }
 
-// the shorthand properties in the given range are in pattern
-func (p *Parser) acceptCoverInits(rng span.Range) {
-	rest := p.coverInits[:0]
-	for _, prop := range p.coverInits {
-		if prop.opLoc.Lo < rng.Lo || prop.opLoc.Lo >= rng.Hi {
-			rest = append(rest, prop)
+// the shorthand properties with default values are legal at the positions of the given pattern
+func (p *Parser) acceptCoverInits(pat Node) {
+	switch n := pat.(type) {
+	case *ObjPat:
+		for _, prop := range n.props {
+			p.acceptCoverInits(prop)
+		}
+	case *ArrPat:
+		for _, elem := range n.elems {
+			p.acceptCoverInits(elem)
+		}
+	case *AssignPat:
+		p.acceptCoverInits(n.lhs)
+	case *RestPat:
+		p.acceptCoverInits(n.arg)
+	case *Spread:
+		p.acceptCoverInits(n.arg)
+	case *ParenExpr:
+		p.acceptCoverInits(n.expr)
+	case *Prop:
+		if !n.assign {
+			p.acceptCoverInits(n.value)
+			return
+		}
+		for i, init := range p.coverInits {
+			if init.opLoc == n.opLoc {
+				p.coverInits = append(p.coverInits[:i], p.coverInits[i+1:]...)
+				return
+			}
+		}
+	}
+}
+
+// `yield` and `await` are not permitted in the params of arrow function, though they are firstly
+// parsed as the ones of the function around
+func (p *Parser) checkSuspends(params span.Range) error {
+	for i := len(p.suspends) - 1; i >= 0; i-- {
+		n := p.suspends[i]
+		rng := n.Range()
+		if rng.Lo < params.Lo {
+			break
 		}
+		if rng.Lo < params.Hi {
+			if n.Type() == N_EXPR_YIELD {
+				return p.errorAtLoc(rng, ERR_YIELD_CANNOT_BE_DEFAULT_VALUE)
+			}
+			return p.errorAtLoc(rng, ERR_AWAIT_AS_DEFAULT_VALUE)
+		}
+	}
+	return nil
+}
+
+// forgets the `yield` and `await` which belong to the function begins at the given position
+func (p *Parser) dropSuspends(lo uint32) {
+	i := len(p.suspends)
+	for i > 0 && p.suspends[i-1].Range().Lo >= lo {
+		i--
 	}
-	p.coverInits = rest
+	p.suspends = p.suspends[:i]
 }
 
 // `L: function f(){}` is not permitted to be the body of other statements
@@ -2520,10 +2574,10 @@ func (p *Parser) forStmt() (Node, error) {
 			// do the `argToParam` check only if the type of init is LitObj or LitArr otherwise
 			// just check their simplicity
 			if it == N_LIT_OBJ || it == N_LIT_ARR {
-				p.acceptCoverInits(init.Range())
 				if init, err = p.argToParam(init, 0, false, true, false); err != nil {
 					return nil, err
 				}
+				p.acceptCoverInits(init)
 			} else if !p.isSimpleLVal(init, true, false, true, false) {
 				return nil, p.errorAtLoc(init.Range(), ERR_ASSIGN_TO_RVALUE)
 			}
@@ -2844,7 +2898,6 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 		if !fn {
 			arrowLoc = p.lexer.Next().rng
 			arrow = true
-			p.acceptCoverInits(span.Range{Lo: rng.Lo, Hi: arrowLoc.Lo})
 			scope.AddKind(SPK_ARROW)
 		} else {
 			return nil, p.errorTok(tok)
@@ -2865,6 +2918,12 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 			if err != nil {
 				return nil, err
 			}
+			for _, param := range params {
+				p.acceptCoverInits(param)
+			}
+			if err = p.checkSuspends(span.Range{Lo: rng.Lo, Hi: arrowLoc.Lo}); err != nil {
+				return nil, err
+			}
 		}
 
 		paramNames, firstComplicated, err = p.collectNames(params)
@@ -3015,6 +3074,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	}
 
 	if arrow {
+		p.dropSuspends(rng.Lo)
 		fn := &ArrowFn{N_EXPR_ARROW, p.finRng(rng), arrowLoc, async != nil, params, body, body.Type() != N_STMT_BLOCK, p.decRetsStk(), span.Range{}, ti}
 		s.Node = fn
 		if expr {
@@ -3031,6 +3091,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 		typ = N_EXPR_FN
 	}
 
+	p.dropSuspends(rng.Lo)
 	fnDec := &FnDec{typ, p.finRng(rng), id, generator, async != nil, params, body, p.decRetsStk(), span.Range{}, ti}
 	if fnRef != nil {
 		fnRef.Dec = fnDec
@@ -3702,7 +3763,7 @@ func (p *Parser) param(methodKind PropKind) (Node, error) {
 			return nil, err
 		}
 
-		if err = p.checkDefaultVal(value, false, false, true); err != nil {
+		if err = p.checkDefaultVal(value, false, false, false); err != nil {
 			return nil, err
 		}
 		if err = p.checkArg(value, false, false); err != nil {
@@ -4018,7 +4079,7 @@ func (p *Parser) propName(allowNamePVT bool, maybeMethod bool, tsRough bool) (No
 		// the computed keys of class are evaluated in the context around that class
 		kind := scope.Kind
 		if scope.IsKind(SPK_CLASS) && scope.Up != nil {
-			scope.Kind |= scope.Up.Kind & (SPK_ASYNC | SPK_GENERATOR)
+			scope.Kind |= scope.Up.Kind & (SPK_ASYNC | SPK_GENERATOR | SPK_FORMAL_PARAMS)
 		}
 		permitIn := p.permitIn()
 		checkName := p.checkName
@@ -4310,7 +4371,9 @@ func (p *Parser) yieldExpr() (Node, error) {
 	tv := tok.value
 	startExpr := kind.StartExpr || p.feat&FEAT_JSX != 0 && tv == T_LT
 	if tok.afterLineTerm || !startExpr && tv != T_MUL {
-		return &YieldExpr{N_EXPR_YIELD, p.finRng(rng), false, nil, span.Range{}}, nil
+		n := &YieldExpr{N_EXPR_YIELD, p.finRng(rng), false, nil, span.Range{}}
+		p.suspends = append(p.suspends, n)
+		return n, nil
 	}
 
 	delegate := false
@@ -4323,7 +4386,9 @@ func (p *Parser) yieldExpr() (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	return &YieldExpr{N_EXPR_YIELD, p.finRng(rng), delegate, arg, span.Range{}}, nil
+	n := &YieldExpr{N_EXPR_YIELD, p.finRng(rng), delegate, arg, span.Range{}}
+	p.suspends = append(p.suspends, n)
+	return n, nil
 }
 
 // https://tc39.es/ecma262/multipage/ecmascript-language-expressions.html#prod-AssignmentExpression
@@ -4366,9 +4431,6 @@ func (p *Parser) assignExpr(checkLhs bool, notGT bool, notHook bool, notColon bo
 	}
 	op := assign.value
 	opLoc := assign.rng
-	if lt := lhs.Type(); op == T_ASSIGN && (lt == N_LIT_OBJ || lt == N_LIT_ARR) {
-		p.acceptCoverInits(span.Range{Lo: lhs.Range().Lo, Hi: opLoc.Lo})
-	}
 
 	rhs, err := p.assignExpr(true, notGT, false, notColon)
 	if err != nil {
@@ -4386,6 +4448,9 @@ func (p *Parser) assignExpr(checkLhs bool, notGT bool, notHook bool, notColon bo
 	if err != nil {
 		return nil, err
 	}
+	if op == T_ASSIGN {
+		p.acceptCoverInits(lhs)
+	}
 
 	if (checkLhs || op != T_ASSIGN) && !p.isSimpleLVal(lhs, true, false, true, op != T_ASSIGN) {
 		return nil, p.errorAtLoc(lhs.Range(), ERR_ASSIGN_TO_RVALUE)
@@ -4554,7 +4619,9 @@ func (p *Parser) awaitExpr(tok *Token) (Node, error) {
 	if arg.Type() == N_EXPR_ARROW {
 		return nil, p.errorAtLoc(arg.Range(), ERR_MALFORMED_ARROW_PARAM)
 	}
-	return &UnaryExpr{N_EXPR_UNARY, p.finRng(rng), T_AWAIT, arg, span.Range{}}, nil
+	n := &UnaryExpr{N_EXPR_UNARY, p.finRng(rng), T_AWAIT, arg, span.Range{}}
+	p.suspends = append(p.suspends, n)
+	return n, nil
 }
 
 // https://tc39.es/ecma262/multipage/ecmascript-language-expressions.html#prod-UnaryExpression
@@ -5738,7 +5805,7 @@ func (p *Parser) argListAfterTypArgs(check bool, incall bool, typArgs Node) ([]N
 		if check {
 			// `spread` or `pattern_rest` expression is legal argument:
 			// `f(c, b, ...a)`
-			if err := p.checkArg(arg, true, false); err != nil {
+			if err := p.checkArg(arg, true, true); err != nil {
 				return nil, span.Range{}, nil, nil, err
 			}
 		}
@@ -6174,7 +6241,12 @@ func (p *Parser) arrowFn(rng span.Range, scopeBase int, args []Node, params []No
 	}
 
 	arrowLoc := p.lexer.Next().rng
-	p.acceptCoverInits(span.Range{Lo: rng.Lo, Hi: arrowLoc.Lo})
+	for _, param := range params {
+		p.acceptCoverInits(param)
+	}
+	if err = p.checkSuspends(span.Range{Lo: rng.Lo, Hi: arrowLoc.Lo}); err != nil {
+		return nil, err
+	}
 	ps := p.scope()
 	scope := p.symtab.EnterScope(true, true, true)
 	p.symtab.adoptScopes(scope, scopeBase)
@@ -6234,6 +6306,7 @@ func (p *Parser) arrowFn(rng span.Range, scopeBase int, args []Node, params []No
 	}
 
 	s := p.symtab.LeaveScope()
+	p.dropSuspends(rng.Lo)
 	n := &ArrowFn{N_EXPR_ARROW, p.finRng(rng), arrowLoc, false, params, body, body.Type() != N_STMT_BLOCK, p.decRetsStk(), span.Range{}, ti}
 	s.Node = n
 	return n, nil
@@ -6726,6 +6799,7 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 	}
 
 	rets := p.decRetsStk()
+	p.dropSuspends(fnLoc.Lo)
 	value := &FnDec{N_EXPR_FN, p.finRng(fnLoc), nil, gen, async, params, body, rets, span.Range{}, ti}
 	s.Node = value
 	if body == nil {
-- 
2.43.0


From 92af75656acda66c0b5bd9356c9d4ac38d910c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:07 +0000
Subject: [PATCH 60/62] fix: arrow functions end the expression they begin, new
 with function callees and templates, let [ after a line terminator

---
 ecma/parser/parser.go | 51 ++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 6988575..ff02fbd 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -3098,14 +3098,6 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	}
 	s.Node = fnDec
 
-	if expr && p.lexer.Peek().value == T_PAREN_L {
-		node, _, err := p.callExpr(fnDec, true, false, span.Range{}, false)
-		if err != nil {
-			return nil, err
-		}
-		return node, nil
-	}
-
 	if !expr && p.ts {
 		if body == nil {
 			p.lastTsFnSig = fnDec
@@ -3403,7 +3395,7 @@ func (p *Parser) aheadIsVarDec(tok *Token) (bool, TokenValue) {
 		// - `let a`
 		ahead := p.lexer.PeekGrow()
 		av := ahead.value
-		if ahead.afterLineTerm && p.scope().IsKind(SPK_INTERIM) || IsName(ahead, "in", false) {
+		if ahead.afterLineTerm && p.scope().IsKind(SPK_INTERIM) && av != T_BRACKET_L || IsName(ahead, "in", false) {
 			return false, T_ILLEGAL
 		}
 		if av == T_NAME ||
@@ -4412,16 +4404,20 @@ func (p *Parser) assignExpr(checkLhs bool, notGT bool, notHook bool, notColon bo
 		p.tsNodeTypAnnot(lhs, typAnnot, ACC_MOD_NONE, span.Range{}, false, false, false, false, ques)
 	}
 
-	tok := p.lexer.Peek()
-	if lhs.Type() == N_NAME && tok.value == T_ARROW && !tok.afterLineTerm {
-		fn, err := p.arrowFn(rng, p.symtab.scopeIdSeed, []Node{lhs}, nil, nil)
-		if err != nil {
-			return nil, err
+	if lhs.Type() == N_NAME {
+		if tok := p.lexer.Peek(); tok.value == T_ARROW && !tok.afterLineTerm {
+			fn, err := p.arrowFn(rng, p.symtab.scopeIdSeed, []Node{lhs}, nil, nil)
+			if err != nil {
+				return nil, err
+			}
+			lhs = fn
 		}
-		lhs = fn
 	}
 
-	assign := p.advanceIfTokIn(T_ASSIGN_BEGIN, T_ASSIGN_END)
+	var assign *Token
+	if !isBareArrow(lhs) {
+		assign = p.advanceIfTokIn(T_ASSIGN_BEGIN, T_ASSIGN_END)
+	}
 	if assign == nil {
 		cmts := p.lexer.takeExprCmts()
 		if len(cmts) > 0 {
@@ -4521,6 +4517,13 @@ func (p *Parser) advanceIfHook() *Token {
 	return nil
 }
 
+// the arrow function which is not enclosed in parens ends the expression it
+// begins, the tokens next to it cannot continue that expression
+func isBareArrow(node Node) bool {
+	fn, ok := node.(*ArrowFn)
+	return ok && fn.OuterParen().Empty()
+}
+
 // https://tc39.es/ecma262/multipage/ecmascript-language-expressions.html#prod-ConditionalExpression
 func (p *Parser) condExpr(test Node, notGT bool, notHook bool, notColon bool) (Node, error) {
 	var err error
@@ -4530,7 +4533,7 @@ func (p *Parser) condExpr(test Node, notGT bool, notHook bool, notColon bool) (N
 	}
 	rng := test.Range()
 
-	if notHook {
+	if notHook || isBareArrow(test) {
 		return test, nil
 	}
 
@@ -4730,8 +4733,11 @@ func (p *Parser) updateExpr(typArgs Node, typArgsLoc span.Range, notColon bool)
 		return nil, err
 	}
 
-	tok = p.lexer.Peek()
-	postfix := !tok.afterLineTerm && (tok.value == T_INC || tok.value == T_DEC)
+	postfix := false
+	if !isBareArrow(arg) {
+		tok = p.lexer.Peek()
+		postfix = !tok.afterLineTerm && (tok.value == T_INC || tok.value == T_DEC)
+	}
 	if !postfix {
 		// for the type info before the arrow fn in this stmt `let a = <T, R>(a: T): void => { a++ }`,
 		// the type info `<T, R>` is the typeParams of the arrowFn rather than typeAssert
@@ -4854,6 +4860,7 @@ func (p *Parser) newExpr(nested bool) (Node, error) {
 				return &NewExpr{N_EXPR_NEW, p.finRng(rng), expr, nil, span.Range{}, ti}, nil
 			}
 		}
+		paren := p.lexer.Peek().value == T_PAREN_L
 		args, _, typArgs, _, err = p.argListAfterTypArgs(true, true, typArgs)
 		if err != nil {
 			return nil, err
@@ -4870,7 +4877,7 @@ func (p *Parser) newExpr(nested bool) (Node, error) {
 		// ```
 		// new C``
 		// ```
-		if len(args) == 0 && p.lexer.Peek().value == T_TPL_HEAD {
+		if !paren && p.lexer.Peek().value == T_TPL_HEAD {
 			if wt, ok := expr.(NodeWithTypInfo); ok {
 				wt.SetTypInfo(ti)
 			}
@@ -4995,7 +5002,7 @@ func (p *Parser) callExpr(callee Node, root bool, directOpt bool, opt span.Range
 
 	firstOpt := opt
 	var fo span.Range
-	for {
+	for !isBareArrow(callee) {
 		tok := p.lexer.Peek()
 		tv := tok.value
 		if p.aheadIsArgList(tok) {
@@ -5866,7 +5873,7 @@ func (p *Parser) binExpr(lhs Node, minPcd int, logic bool, nullish bool, notGT b
 
 	ts := p.ts
 	notIn := p.scope().IsKind(SPK_NOT_IN)
-	for {
+	for !isBareArrow(lhs) {
 		ahead := p.peekBinOp()
 		op := ahead.IsBin(notIn, ts)
 		if op == T_ILLEGAL {
-- 
2.43.0


From ffc577bcd6eaa0178a3dcb0a432989b6396b7f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:52 +0000
Subject: [PATCH 61/62] fix: logical assignments may skip their right side in
 control flow graphs

---
 ecma/analysis/ctrlflow.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/ecma/analysis/ctrlflow.go b/ecma/analysis/ctrlflow.go
index f99f70b..5b90a2f 100644
--- a/ecma/analysis/ctrlflow.go
+++ b/ecma/analysis/ctrlflow.go
@@ -485,10 +485,22 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		enter := ac.popExpr()
 		exit := ac.newExit(node, "")
 		link(ac, enter, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, lhs, LF_NONE)
-		link(ac, lhs, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, rhs, LF_NONE)
 
-		link(ac, rhs, EK_JMP, ET_NONE, EK_JMP, ET_NONE, exit, LF_NONE)
-		link(ac, rhs, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
+		vn := rhs
+		op := node.(*parser.AssignExpr).Op()
+		if logic := op == parser.T_ASSIGN_AND || op == parser.T_ASSIGN_OR || op == parser.T_ASSIGN_NULLISH; logic {
+			// the rhs is skipped if the lhs decides the result
+			prev := grpBlock(ac, enter, lhs)
+			prev.newJmpOut(ET_JMP_F)
+			link(ac, prev, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, rhs, LF_NONE)
+			vn = grpBlock(ac, prev, rhs)
+			vn.addOutlets(prev.xJmpOutEdges())
+		} else {
+			link(ac, lhs, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, rhs, LF_NONE)
+		}
+
+		link(ac, vn, EK_JMP, ET_NONE, EK_JMP, ET_NONE, exit, LF_NONE)
+		link(ac, vn, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 		ac.pushExpr(grpBlock(ac, enter, exit))
 
 	case parser.N_EXPR_CALL:
-- 
2.43.0


From 6f07248b7c23212e8122b2b9fddd89f4aad0e71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:42 +0000
Subject: [PATCH 62/62] fix: names of computed members and identifiers without
 declarations in the helpers of the ast

---
 ecma/astutil/astutil.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecma/astutil/astutil.go b/ecma/astutil/astutil.go
index 1ed4fe0..4ff40b0 100644
--- a/ecma/astutil/astutil.go
+++ b/ecma/astutil/astutil.go
@@ -12,7 +12,7 @@ func GetStaticPropertyName(node parser.Node) string {
 	switch node.Type() {
 	case parser.N_EXPR_MEMBER:
 		n := node.(*parser.MemberExpr)
-		if n.Prop().Type() == parser.N_NAME {
+		if !n.Compute() && n.Prop().Type() == parser.N_NAME {
 			return n.Prop().(*parser.Ident).Val()
 		}
 	case parser.N_EXPR_CHAIN:
@@ -379,6 +379,9 @@ func GetVarDec(name string, varDecStmt *parser.VarDecStmt) *parser.VarDec {
 func IsIdentBoundInImportDec(ident *parser.Ident, scope *parser.Scope) *parser.ImportDec {
 	name := ident.Val()
 	ref := scope.BindingOf(name)
+	if ref == nil {
+		return nil
+	}
 	dec := ref.Dec
 	if dec != nil && dec.Type() == parser.N_STMT_IMPORT {
 		return dec.(*parser.ImportDec)
-- 
2.43.0

