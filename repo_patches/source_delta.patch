From 696d8da7fcb20f3a46cf1dc623369eaa89bb4174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 01/14] fix: Debug{true} traces the requested parse only,
 without toggling the shared grammar's TraceOptions

---
 grammar.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/grammar.go b/grammar.go
index 468e3ed..fe42555 100644
--- a/grammar.go
+++ b/grammar.go
@@ -106,18 +106,17 @@ func (gm *Grammar) ParseTokens(tokens *TokenStream, options ...ParseOption) Ast
 // Use ParseString() or ParseTokens()
 // This parse(ctx) is for Grammar to implement Parser
 func (gm *Grammar) parse(ctx *ParseContext) Ast {
-	oldTrace := gm.TraceOptions.Stack
 	ctx.GrammarName = gm.getRule().name
 	if ctx.parseOptions.debug {
-		// temporarily enable stack tracing
-		gm.TraceOptions.Stack = true
+		// enable stack tracing, for this parse only. The grammar (and its
+		// TraceOptions) may be shared by other parses.
+		ctx.TraceOptions = ctx.TraceOptions.Copy()
+		ctx.TraceOptions.Stack = true
 	}
 	if gm.rank == nil {
 		panic("Grammar.rank is nil")
 	}
 	result := gm.rank.parse(ctx)
-	// undo temporary stack tracing
-	gm.TraceOptions.Stack = oldTrace
 	// if parse is incomplete, compute error message
 	if ctx.Code.Pos() != ctx.Code.workLength() {
 		// find the maximum parsed entity
-- 
2.43.0


From 94aea8f74abff053fdc005902dc0b2cce9a2b591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 02/14] fix: TokenStreamFromGoCode reports the errors of its
 own source, all of them, and only those

---
 codestream_token.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/codestream_token.go b/codestream_token.go
index 63e94cc..212a86c 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -331,13 +331,6 @@ func (code *TokenStream) coords(workOffset int) coord {
 	}
 }
 
-// use by error handler below
-var scanErrors []error
-
-func handleErrors(pos token.Position, msg string) {
-	scanErrors = append(scanErrors, scannerError{pos, msg})
-}
-
 // TokenStreamFromGoCode is a special function transforming
 // some go code into a TokenStream. You can then call
 // `yourGrammar.ParseTokens(ts TokenStream)` directly.
@@ -345,13 +338,11 @@ func TokenStreamFromGoCode(source string) (*TokenStream, error) {
 	var scan goscanner.Scanner
 	fset := token.NewFileSet()
 	file := fset.AddFile("", fset.Base(), len(source))
-	scan.Init(file, []byte(source), handleErrors, 0 /*goscanner.ScanComments*/)
-	if scan.ErrorCount > 0 {
-		if scan.ErrorCount != len(scanErrors) {
-			panic("assert") // errors must have been collected
-		}
-		return nil, errors.Join(scanErrors...)
+	var scanErrors []error // those of this source only
+	handleErrors := func(pos token.Position, msg string) {
+		scanErrors = append(scanErrors, scannerError{pos, msg})
 	}
+	scan.Init(file, []byte(source), handleErrors, 0 /*goscanner.ScanComments*/)
 	tokens := []Token{}
 	workOffset := 0
 	prev := ""
@@ -391,6 +382,9 @@ func TokenStreamFromGoCode(source string) (*TokenStream, error) {
 		tokens = append(tokens, Token{s, int(pos) - 1, workOffset})
 		b.WriteString(s)
 	}
+	if len(scanErrors) > 0 {
+		return nil, errors.Join(scanErrors...)
+	}
 	return NewTokenStream(source, tokens), nil
 }
 
-- 
2.43.0


From b790728bdc6e6dee80559077a4a0af33a18c1375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 03/14] fix: an unbounded pattern stops when an iteration
 consumes nothing instead of looping forever

---
 parser_pattern.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser_pattern.go b/parser_pattern.go
index c645045..02d7142 100644
--- a/parser_pattern.go
+++ b/parser_pattern.go
@@ -112,6 +112,10 @@ func (patt *pattern) parse(ctx *ParseContext) Ast {
 				ctx.Code.SetPos(pos2)
 				break
 			}
+			// an iteration consuming nothing could be repeated forever
+			if patt.max < 0 && len(matches) >= patt.min && ctx.Code.Pos() <= pos2 {
+				break
+			}
 			matches = append(matches, resValue)
 			if patt.max > -1 && len(matches) >= int(patt.max) {
 				break
-- 
2.43.0


From ad1ad98f9452f10fdcebc5026d8af1cb92f84adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 04/14] fix: labels & and @ extend a copy of the child's
 NativeMap, which may be memoized

---
 parser_sequence.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/parser_sequence.go b/parser_sequence.go
index 3b008c4..e62d949 100644
--- a/parser_sequence.go
+++ b/parser_sequence.go
@@ -162,13 +162,13 @@ func (seq *sequence) parseAsObject(ctx *ParseContext) Ast {
 		switch label {
 		case "&":
 			if IsUndefined(results) {
-				results = res
+				results = ownMap(res)
 			} else {
-				results = merge(res, results)
+				results = merge(ownMap(res), results)
 			}
 		case "@":
 			if IsUndefined(results) {
-				results = res
+				results = ownMap(res)
 			} else {
 				results = merge(results, res)
 			}
@@ -204,6 +204,20 @@ func (seq *sequence) forEachChild(f func(Parser) Parser) Parser {
 	return seq
 }
 
+// The result of a child can be memoized, in which case other alternatives may get
+// it as well: when it is a *NativeMap return a copy that can safely be extended.
+func ownMap(res Ast) Ast {
+	if nm, isMap := res.(*NativeMap); isMap {
+		own := NewEmptyNativeMap()
+		*own.Attr = *nm.Attr
+		for _, k := range nm.Keys() {
+			own.Set(k, nm.Get(k))
+		}
+		return own
+	}
+	return res
+}
+
 // Port of lib/helpers.js:extend() in a less general way (Ast-specific)
 // Extend a source object with the properties of a newcomer object (shallow copy).
 // The modified `toExtend` object is returned.
-- 
2.43.0


From 7a7742532ba20bbbd84e4c04d3bce9c906a6a777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 05/14] fix: tracing a SkipCache rule that does not match does
 not crash the parse

---
 packrat.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packrat.go b/packrat.go
index 06790b4..00fb671 100644
--- a/packrat.go
+++ b/packrat.go
@@ -90,7 +90,11 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 		if x.getRule().skipCache {
 			result := fparse(ctx)
 			if showLog {
-				ctx.log(Cyan("`->:")+" "+helpers.Escape(result.String())+" "+BoldBlack(helpers.TypeOfToString(result)), opts)
+				s := "nil"
+				if result != nil {
+					s = helpers.Escape(result.String())
+				}
+				ctx.log(Cyan("`->:")+" "+s+" "+BoldBlack(helpers.TypeOfToString(result)), opts)
 			}
 			return result
 		}
-- 
2.43.0


From aad60929fa9e29bb866c854316e045321e1f566c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 06/14] fix: TRACE=loop,line=N does not crash when a left
 recursion happens on another line

---
 packrat.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packrat.go b/packrat.go
index 00fb671..89f6c9e 100644
--- a/packrat.go
+++ b/packrat.go
@@ -150,8 +150,10 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 					return result
 				} else {
 					frame.loopstage = 3
+					loopStackPushed := false
 					if opts.Loop && ((opts.FilterLine < 0) || ctx.Code.Line() == opts.FilterLine) {
 						ctx.loopStackPush(x.getRule().name)
+						loopStackPushed = true
 						// if false {
 						//  line := ctx.Code.Line()
 						// 	var paintInColor func(string) string = nil
@@ -201,7 +203,7 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 							break
 						}
 					}
-					if opts.Loop {
+					if loopStackPushed {
 						ctx.loopStackPop()
 					}
 					ctx.wipeWith(frame, false)
-- 
2.43.0


From 469f2e71eb06f327a745aa0adba8a5282d051183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 07/14] fix: tracing the parse of a text with U+FFFD or invalid
 UTF-8 does not panic

---
 helpers/helpers.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/helpers/helpers.go b/helpers/helpers.go
index cc34f46..ae60267 100644
--- a/helpers/helpers.go
+++ b/helpers/helpers.go
@@ -135,7 +135,7 @@ func BoolToString(b bool) string {
 
 // take last `nTake` runes from `abc`, in natural order. ("abc", 2) -> "bc"
 // When nTake is more than the number of available runes, return all of them.
-// If RuneError at some point, panic.
+// Bytes that are not valid UTF-8 count as one rune each.
 func LastNRunes(abc string, nTake int) string {
 	totalSize := 0 // size in bytes
 	slice := abc
@@ -143,10 +143,7 @@ func LastNRunes(abc string, nTake int) string {
 		if len(slice) == 0 {
 			break
 		}
-		c, csize := utf8.DecodeLastRuneInString(slice)
-		if c == utf8.RuneError {
-			panic(fmt.Sprintf("RuneError: %q\n", c))
-		}
+		_, csize := utf8.DecodeLastRuneInString(slice)
 		totalSize += csize // csize is char len in bytes for rune c
 		slice = slice[:len(slice)-csize]
 		nTake--
-- 
2.43.0


From 389c371066860c6cf117f81c14ffbae354e14bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 08/14] fix: Lazy values can be evaluated by parses running
 concurrently on a shared grammar

---
 helpers/lazy.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/helpers/lazy.go b/helpers/lazy.go
index 01f9ebe..18e4d92 100644
--- a/helpers/lazy.go
+++ b/helpers/lazy.go
@@ -1,11 +1,16 @@
 package helpers
 
+import "sync/atomic"
+
 // lazy, when lazy.Get() is called:
 // - returns lazy.val if set,
 // - returns lazy.val = lazy.f() otherwise
+//
+// Get() can be called by several goroutines: f() may then be evaluated
+// more than once, but they all get the one value which was stored first.
 
 type Lazy[T any] struct {
-	val *T
+	val atomic.Pointer[T]
 	f   func() T // lazy evaluator
 }
 
@@ -13,16 +18,16 @@ func NewLazy[T any]() *Lazy[T]                { return &Lazy[T]{} }
 func LazyFromValue[T any](t T) *Lazy[T]       { r := &Lazy[T]{}; r.Set(t); return r }
 func LazyFromFunc[T any](f func() T) *Lazy[T] { return &Lazy[T]{f: f} }
 
-func (k *Lazy[T]) IsSet() bool { return k.val != nil }
-func (k *Lazy[T]) Set(t T)     { k.val = &t }
-func (k *Lazy[T]) Clear()      { k.val = nil; k.f = nil }
+func (k *Lazy[T]) IsSet() bool { return k.val.Load() != nil }
+func (k *Lazy[T]) Set(t T)     { k.val.Store(&t) }
+func (k *Lazy[T]) Clear()      { k.val.Store(nil); k.f = nil }
 func (k *Lazy[T]) Get() T {
-	if !k.IsSet() && k.f != nil {
-		ptr := k.f()
-		(*k).val = &ptr
-		return *k.val
-	} else {
-		return *k.val
+	for {
+		if ptr := k.val.Load(); ptr != nil || k.f == nil {
+			return *ptr
+		}
+		t := k.f()
+		k.val.CompareAndSwap(nil, &t)
 	}
 }
 
-- 
2.43.0


From 7abf86231be7f56712e5b26100ea480d064dbd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 09/14] fix: value{m,n} and value*join{m,n} never match more
 than n times

---
 parser_pattern.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser_pattern.go b/parser_pattern.go
index 02d7142..48bf729 100644
--- a/parser_pattern.go
+++ b/parser_pattern.go
@@ -87,6 +87,9 @@ func (patt *pattern) getRule() *rule { return patt.rule }
 func (patt *pattern) parse(ctx *ParseContext) Ast {
 	return wrap(func(_ *ParseContext, _ Parser) Ast {
 		pos := ctx.Code.Pos()
+		if patt.max == 0 {
+			return NewNativeArray([]Ast{})
+		}
 		resValue := patt.value.parse(ctx)
 		if resValue == nil {
 			ctx.Code.SetPos(pos)
@@ -96,7 +99,7 @@ func (patt *pattern) parse(ctx *ParseContext) Ast {
 			return NewNativeArray([]Ast{})
 		}
 		var matches []Ast = []Ast{resValue}
-		for {
+		for patt.max < 0 || len(matches) < patt.max {
 			pos2 := ctx.Code.Pos()
 			if !IsUndefined(patt.join) {
 				resJoin := patt.join.parse(ctx)
@@ -117,9 +120,6 @@ func (patt *pattern) parse(ctx *ParseContext) Ast {
 				break
 			}
 			matches = append(matches, resValue)
-			if patt.max > -1 && len(matches) >= int(patt.max) {
-				break
-			}
 		}
 		if patt.min > -1 && int(patt.min) > len(matches) {
 			ctx.Code.SetPos(pos)
-- 
2.43.0


From 05fa3dd063a17842a02d76c2ac977a89af1b52b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 10/14] fix: the parse stack grows as needed instead of
 overflowing at 1024 nested rules

---
 parsectx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsectx.go b/parsectx.go
index fa204ad..f85250b 100644
--- a/parsectx.go
+++ b/parsectx.go
@@ -21,7 +21,7 @@ type ParseContext struct {
 
 	numRules    int
 	frames      [][]*frame // 2D: [len(code.text) + 1][numRules]
-	stack       [1024]*frame
+	stack       []*frame   // grows with the depth of the parse
 	stackLength int
 	loopStack   []string
 }
@@ -86,7 +86,7 @@ func (ctx *ParseContext) loopStackPush(name string) { ctx.loopStack = append(ctx
 func (ctx *ParseContext) loopStackPop()             { ctx.loopStack = ctx.loopStack[:len(ctx.loopStack)-1] }
 func (ctx *ParseContext) stackPeek(skip int) *frame { return ctx.stack[ctx.stackLength-1-skip] }
 func (ctx *ParseContext) stackPush(x Parser) {
-	ctx.stack[ctx.stackLength] = ctx.getFrame(x)
+	ctx.stack = append(ctx.stack[:ctx.stackLength], ctx.getFrame(x))
 	ctx.stackLength++
 }
 func (ctx *ParseContext) stackPop() { ctx.stackLength-- }
-- 
2.43.0


From 074db6ba2f18463d2e4a8d4890b10feefeff82e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 11/14] fix: grammars compiled from the same lines do not share
 the options of their rules

---
 line.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/line.go b/line.go
index 7ab54b4..e332dbd 100644
--- a/line.go
+++ b/line.go
@@ -189,7 +189,8 @@ func getRule(
 			answer = ast.(Parser)
 		}
 		answer.getRule().name = name
-		answer.getRule().parseOptions = attrs
+		ruleOptions := *attrs // a copy: the same lines can be used to compile other grammars
+		answer.getRule().parseOptions = &ruleOptions
 	default:
 		panic("unrecog type " + reflect.TypeOf(line).String())
 	}
-- 
2.43.0


From 5f41aed8364ff0e8a13f447d8015e3a03913ea0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:43 +0000
Subject: [PATCH 12/14] fix: memoized rules depending on a growing left
 recursive rule are re-evaluated as it grows, and once it is done

---
 packrat.go  | 31 ++++++++++++++-----------------
 parsectx.go | 41 +++++++++++++++--------------------------
 2 files changed, 29 insertions(+), 43 deletions(-)

diff --git a/packrat.go b/packrat.go
index 89f6c9e..cef0c1a 100644
--- a/packrat.go
+++ b/packrat.go
@@ -8,18 +8,15 @@ import (
 
 // packrat parsing algorithm. From original joeson.coffee
 
-type (
-	frame struct {
-		result    Ast
-		endpos    int    // -1 means not set
-		loopstage int    // -1 means not set TODO enum
-		wipemask  []bool // len = ctx.grammar.numRules
-		pos       int
-		id        int
-		param     Ast // used in ref.go or joeson.coffee:536
-	}
-	stash []*frame
-)
+type frame struct {
+	result    Ast
+	endpos    int    // -1 means not set
+	loopstage int    // -1 means not set TODO enum
+	wipemask  []bool // len = ctx.grammar.numRules
+	pos       int
+	id        int
+	param     Ast // used in ref.go or joeson.coffee:536
+}
 
 func (f frame) toString() string {
 	return "N/A frame.toString"
@@ -118,6 +115,7 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 						ctx.log(Cyan("`-hit:")+" nil", opts)
 					}
 				}
+				ctx.wipeDependents(x.getRule().id, startPos)
 				ctx.Code.SetPos(frame.endpos)
 				return frame.result
 			}
@@ -145,8 +143,9 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 					if showLog {
 						ctx.log(Yellow("`--- loop nil --- "), opts)
 					}
+					ctx.wipeWith(frame)
 					frame.loopstage = 0
-					// cacheSet(frame, nil) // unneeded (already nil)
+					frame.cacheSet(nil, startPos)
 					return result
 				} else {
 					frame.loopstage = 3
@@ -183,14 +182,13 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 						// 	fmt.Println(s) // also this way in original joeson.coffee
 						// }
 					}
-					var bestStash stash = nil
 					var bestEndPos int = 0
 					var bestResult Ast = nil
 					for result != nil {
 						if frame.wipemask == nil {
 							panic("where's my wipemask")
 						}
-						bestStash = ctx.wipeWith(frame, true)
+						ctx.wipeWith(frame)
 						bestResult = result
 						bestEndPos = ctx.Code.Pos()
 						frame.cacheSet(bestResult, bestEndPos)
@@ -206,8 +204,7 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 					if loopStackPushed {
 						ctx.loopStackPop()
 					}
-					ctx.wipeWith(frame, false)
-					ctx.restoreWith(bestStash)
+					ctx.wipeWith(frame)
 					ctx.Code.SetPos(bestEndPos)
 					if showLog {
 						ctx.log(Yellow("`--- loop done! --- ")+"best result: "+helpers.Escape(bestResult.String()), opts)
diff --git a/parsectx.go b/parsectx.go
index f85250b..3976d63 100644
--- a/parsectx.go
+++ b/parsectx.go
@@ -104,40 +104,29 @@ func (ctx *ParseContext) getFrame(x Parser) *frame {
 	}
 }
 
-func (ctx *ParseContext) wipeWith(frame_ *frame, makeStash bool) stash {
-	// return *stash, or nil if !makeStash
-	// default for makeStash was true in coffee
+// Forget the frames which were obtained from an intermediate result of frame_.
+func (ctx *ParseContext) wipeWith(frame_ *frame) {
 	if frame_.wipemask == nil {
 		panic(errors.New("need frame.wipemask to know what to wipe"))
 	}
-	var stash_ []*frame
-	if makeStash {
-		stash_ = make([]*frame, ctx.numRules)
-	}
-	stashCount := 0
-	pos := frame_.pos
-	posFrames := ctx.frames[pos]
+	posFrames := ctx.frames[frame_.pos]
 	for i, bWipe := range frame_.wipemask {
-		if !bWipe {
-			continue
-		}
-		if makeStash {
-			stash_[i] = posFrames[i]
+		if bWipe {
+			posFrames[i] = nil
 		}
-		posFrames[i] = nil
-		stashCount++
-	}
-	if stash_ != nil {
-		return stash_
-	} else {
-		return nil
 	}
 }
 
-func (ctx *ParseContext) restoreWith(stash_ stash) {
-	for i, frame := range stash_ {
-		if frame != nil {
-			ctx.frames[frame.pos][i] = frame
+// The memoized result of rule `id` at `pos` is about to be used. If that result was
+// obtained from the intermediate result of a left recursive rule which is still growing,
+// then the rules using it now must be wiped along with it.
+func (ctx *ParseContext) wipeDependents(id int, pos int) {
+	for i := ctx.stackLength - 2; i >= 0 && ctx.stack[i].pos == pos; i-- {
+		head := ctx.stack[i]
+		if head.loopstage >= 2 && head.wipemask[id] {
+			for _, dependent := range ctx.stack[i+1 : ctx.stackLength-1] {
+				head.wipemask[dependent.id] = true
+			}
 		}
 	}
 }
-- 
2.43.0


From 292b287efdd9152cb6cbf9cf1e221c7acb2cc03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:53 +0000
Subject: [PATCH 13/14] fix: a regex which does not match at the position
 searched the rest of the text

Each failed match of a regex or class of characters read the text up to its
end (or up to a match further, which was then dropped): parsing took a time
quadratic in the length of the text.
---
 parser_regex.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser_regex.go b/parser_regex.go
index d1901fd..6a58b74 100644
--- a/parser_regex.go
+++ b/parser_regex.go
@@ -17,7 +17,8 @@ type regex struct {
 }
 
 func newRegexFromString(sRegex string) *regex {
-	if compiledRegexp, e := regexp.Compile("(" + sRegex + ")"); e != nil {
+	// anchored: when it does not match here, don't look for a match further in the text
+	if compiledRegexp, e := regexp.Compile("^(" + sRegex + ")"); e != nil {
 		panic("Invalid regex: " + sRegex)
 	} else {
 		re := &regex{newAttr(), newRule(), sRegex, *compiledRegexp}
@@ -28,7 +29,7 @@ func newRegexFromString(sRegex string) *regex {
 
 func (re *regex) getRule() *rule { return re.rule }
 func (re *regex) String() string {
-	return Magenta("/" + strings.NewReplacer("\r", "\\r", "\n", "\\n", "\t", "\\t").Replace(re.re.String()) + "/g")
+	return Magenta("/" + strings.NewReplacer("\r", "\\r", "\n", "\\n", "\t", "\\t").Replace("("+re.reStr+")") + "/g")
 }
 func (re *regex) handlesChildLabel() bool { return false }
 func (re *regex) prepare()                {}
-- 
2.43.0


From 2ad6bade8338756734058b043b5865c0155e27db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:07 +0000
Subject: [PATCH 14/14] fix: parsing a token stream took a time quadratic in
 the number of its tokens

Each value looked for the token at its position from the first token on. The
search is now binary (and gives the last token its own offsets).
---
 codestream_token.go | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/codestream_token.go b/codestream_token.go
index 212a86c..988570b 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -6,6 +6,7 @@ import (
 	goscanner "go/scanner"
 	"go/token"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -304,22 +305,11 @@ func (code *TokenStream) coords(workOffset int) coord {
 	}
 	// find most advanced token number, such that the following token would begin
 	// after workOffset.
-	nToken := 0
-	var token Token
-	for {
-		if nToken >= len(code.tokens)-1 {
-			break // don't panic, it can make sense when a token was inserted
-		}
-		token = code.tokens[nToken]
-		if workOffset < token.WorkOffset+len(token.Repr) {
-			break
-		}
-		nToken++
-	}
-	if nToken >= len(code.tokens) {
-		panic(fmt.Sprintf("nToken=%d goes beyond len(code.tokens)=%d\n"+
-			"%s", nToken, len(code.tokens), code.Print()))
-	}
+	// The last token is not looked at: workOffset can be after it (end of the stream)
+	nToken := sort.Search(len(code.tokens)-1, func(n int) bool {
+		return workOffset < code.tokens[n].WorkOffset+len(code.tokens[n].Repr)
+	})
+	token := code.tokens[nToken]
 	offsetInToken := workOffset - token.WorkOffset
 	originalOffset := code.tokens[nToken].OriginalOffset + offsetInToken
 	return coord{
-- 
2.43.0

