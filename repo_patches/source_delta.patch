From 40ffc738eb7f1c18f2a77774523b4bb0c2976b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 01/40] fix: langdef: do not loop forever on an unterminated
 token definition or directive

---
 langdef/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index b9444ea..be834c1 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -423,7 +423,7 @@ func (c *parseContext) fetchAll(types []string, e error) ([]*lexer.Token, error)
 			return nil, e
 		}
 
-		if t == nil {
+		if t == nil || isEof(t) {
 			break
 		}
 
-- 
2.43.0


From 8c4d577a8375fcbbb048b49f54d7acf5636d8585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 02/40] fix: langdef: do not take a name token for a token type
 having the same name

---
 langdef/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index be834c1..fb1bc8b 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -327,7 +327,7 @@ func (c *parseContext) fetch(types []string, strict bool, e error) (*lexer.Token
 	}
 
 	for _, typ := range types {
-		if token.TypeName() == typ || token.Text() == typ {
+		if token.TypeName() == typ || (token.TypeName() == opTok && token.Text() == typ) {
 			return token, nil
 		}
 	}
-- 
2.43.0


From 79ef6f589f914998724a83035e1c456a786f51f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 03/40] fix: langdef: !reserved has effect on a literal already
 listed in !literal

---
 langdef/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index fb1bc8b..d97101b 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -460,8 +460,10 @@ func (c *parseContext) addToken(name, re string, flags grammar.TokenFlags) int {
 }
 
 func (c *parseContext) addLiteralToken(name string, flags grammar.TokenFlags) {
-	_, has := c.literalIndex[name]
-	if !has {
+	i, has := c.literalIndex[name]
+	if has {
+		c.literals[i].flags |= flags
+	} else {
 		c.literalIndex[name] = len(c.literals)
 		c.literals = append(c.literals, literalToken{name, flags})
 	}
-- 
2.43.0


From dffe9623434703b0e4f9dba344a2be824478d7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 04/40] fix: langdef: \\x## in a string literal denotes a
 single byte

---
 langdef/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index d97101b..22b512d 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -399,7 +399,11 @@ func processStringToken(token *lexer.Token) (*lexer.Token, error) {
 				return nil, e
 			}
 
-			result = utf8.AppendRune(result, r)
+			if letter == 'x' {
+				result = append(result, byte(r))
+			} else {
+				result = utf8.AppendRune(result, r)
+			}
 			content = content[entry.hexLen+2:]
 		}
 	}
-- 
2.43.0


From 721c098bf549e0e0a8e7eb5295c1a94eda206064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 05/40] fix: langdef: do not count token types mentioned in
 directives before definition twice

---
 langdef/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 22b512d..32f1485 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -239,7 +239,7 @@ func (c *parseContext) Parse(s *source.Source) (*parseResult, error) {
 		return nil, e
 	}
 
-	if len(c.result.Tokens)+len(c.extraTokens) >= grammar.MaxTokenType {
+	if len(c.result.Tokens)+len(c.extraIndex) >= grammar.MaxTokenType {
 		return nil, tokenTypeNumberError(t)
 	}
 
-- 
2.43.0


From 50af37ebc1bdd468ae58c4e4fce65c1b285c6dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 06/40] fix: langdef: nested optional groups inside a repeated
 group caused an endless loop

---
 langdef/chunks.go | 3 +++
 langdef/result.go | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/langdef/chunks.go b/langdef/chunks.go
index f660d21..d85ae57 100755
--- a/langdef/chunks.go
+++ b/langdef/chunks.go
@@ -113,6 +113,9 @@ func (c *groupChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) {
 	if needExtraRule {
 		g.States[stateIndex].CopyRules(g.States[states[0]])
 	}
+	if c.isRepeated {
+		g.States[stateIndex].DropBypass(stateIndex)
+	}
 }
 
 type eoiChunk struct{}
diff --git a/langdef/result.go b/langdef/result.go
index 6158acb..29ec4d5 100644
--- a/langdef/result.go
+++ b/langdef/result.go
@@ -113,6 +113,14 @@ func (se *stateEntry) BypassRule(nextState int) {
 	se.AddRule(nextState, grammar.SameNode, grammar.AnyToken)
 }
 
+// DropBypass removes bypass rule leading to given state.
+func (se *stateEntry) DropBypass(nextState int) {
+	rs := se.Rules[grammar.AnyToken]
+	if len(rs) != 0 && rs[0].State == nextState {
+		delete(se.Rules, grammar.AnyToken)
+	}
+}
+
 func (se *stateEntry) CopyRules(from *stateEntry) {
 	for k, rs := range from.Rules {
 		if k >= 0 {
-- 
2.43.0


From f568037832f24ca9a3cdb85b7f866c0fe3492109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 07/40] fix: langdef: a repeated variant must not start over at
 the state shared with other variants

---
 langdef/chunks.go | 77 ++++++++++++++++++++++++++++++++++++++++-------
 langdef/parser.go |  5 ++-
 2 files changed, 70 insertions(+), 12 deletions(-)

diff --git a/langdef/chunks.go b/langdef/chunks.go
index d85ae57..f64bb5f 100755
--- a/langdef/chunks.go
+++ b/langdef/chunks.go
@@ -36,10 +36,26 @@ func (c *variantChunk) Append(ch chunk) {
 	c.chunks = append(c.chunks, ch)
 }
 
-func (c *variantChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) {
+// LoopsBack returns false, a variant that loops back always has its own initial state.
+func (c *variantChunk) LoopsBack() bool {
+	return false
+}
+
+func (c *variantChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) (extra []int) {
 	for _, chunk := range c.chunks {
-		chunk.BuildStates(g, stateIndex, nextIndex)
+		if !chunk.LoopsBack() {
+			extra = append(extra, chunk.BuildStates(g, stateIndex, nextIndex)...)
+			continue
+		}
+
+		firstIndex, _ := g.AddState()
+		extra = append(extra, chunk.BuildStates(g, firstIndex, nextIndex)...)
+		g.States[stateIndex].CopyRules(g.States[firstIndex])
+		if chunk.IsOptional() {
+			extra = append(extra, firstIndex)
+		}
 	}
+	return
 }
 
 type groupChunk struct {
@@ -65,9 +81,11 @@ func (c *groupChunk) FirstTokens() *ints.Set {
 }
 
 func (c *groupChunk) IsOptional() bool {
-	if c.isOptional {
-		return true
-	}
+	return c.isOptional || c.canBeEmpty()
+}
+
+// canBeEmpty returns true if all items of the list may be skipped.
+func (c *groupChunk) canBeEmpty() bool {
 	for _, ch := range c.chunks {
 		if !ch.IsOptional() {
 			return false
@@ -80,10 +98,22 @@ func (c *groupChunk) Append(ch chunk) {
 	c.chunks = append(c.chunks, ch)
 }
 
-func (c *groupChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) {
+// needsOwnState returns true if the repeated list must not share its initial state with the group itself,
+// i.e. if it would be possible to leave the group having only a part of the list matched.
+func (c *groupChunk) needsOwnState() bool {
+	return c.isRepeated && (len(c.chunks) > 1 || (c.chunks[0].LoopsBack() && !c.canBeEmpty()))
+}
+
+// LoopsBack returns true if some repeated part of the group starts over at the initial state of the group.
+func (c *groupChunk) LoopsBack() bool {
+	return c.isRepeated || (c.chunks[0].LoopsBack() && !c.needsOwnState())
+}
+
+func (c *groupChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) (extra []int) {
 	tailIndex := nextIndex
 	totalChunks := len(c.chunks)
-	needExtraRule := (c.isRepeated && totalChunks > 1)
+	needExtraRule := c.needsOwnState()
+	extras := make([][]int, totalChunks)
 	states := make([]int, totalChunks+1)
 	if c.isRepeated {
 		tailIndex = stateIndex
@@ -99,15 +129,21 @@ func (c *groupChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) {
 	states[totalChunks] = tailIndex
 
 	for i, chunk := range c.chunks {
-		chunk.BuildStates(g, states[i], states[i+1])
+		extras[i] = chunk.BuildStates(g, states[i], states[i+1])
 	}
 
 	if c.chunks[totalChunks-1].IsOptional() {
 		g.States[states[totalChunks-1]].BypassRule(tailIndex)
+		for _, index := range extras[totalChunks-1] {
+			g.States[index].BypassRule(tailIndex)
+		}
 	}
 	for i := totalChunks - 2; i >= 0; i-- {
 		if c.chunks[i].IsOptional() {
 			g.States[states[i]].CopyRules(g.States[states[i+1]])
+			for _, index := range extras[i] {
+				g.States[index].CopyRules(g.States[states[i+1]])
+			}
 		}
 	}
 	if needExtraRule {
@@ -116,6 +152,10 @@ func (c *groupChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) {
 	if c.isRepeated {
 		g.States[stateIndex].DropBypass(stateIndex)
 	}
+	if !needExtraRule && c.canBeEmpty() {
+		extra = extras[0]
+	}
+	return
 }
 
 type eoiChunk struct{}
@@ -128,8 +168,13 @@ func (eoiChunk) IsOptional() bool {
 	return false
 }
 
-func (eoiChunk) BuildStates(g *parseResult, stateIndex, _ int) {
+func (eoiChunk) LoopsBack() bool {
+	return false
+}
+
+func (eoiChunk) BuildStates(g *parseResult, stateIndex, _ int) []int {
 	g.States[stateIndex].AddRule(grammar.FinalState, grammar.SameNode, lexer.EoiTokenType)
+	return nil
 }
 
 type tokenChunk int
@@ -146,8 +191,13 @@ func (c tokenChunk) IsOptional() bool {
 	return false
 }
 
-func (c tokenChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) {
+func (c tokenChunk) LoopsBack() bool {
+	return false
+}
+
+func (c tokenChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) []int {
 	g.States[stateIndex].AddRule(nextIndex, grammar.SameNode, int(c))
+	return nil
 }
 
 type nodeChunk struct {
@@ -167,7 +217,12 @@ func (c *nodeChunk) IsOptional() bool {
 	return false
 }
 
-func (c *nodeChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) {
+func (c *nodeChunk) LoopsBack() bool {
+	return false
+}
+
+func (c *nodeChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) []int {
 	firstTokens := c.FirstTokens().ToSlice()
 	g.States[stateIndex].AddRule(nextIndex, c.item.Index, firstTokens...)
+	return nil
 }
diff --git a/langdef/parser.go b/langdef/parser.go
index 32f1485..fb7b889 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -31,7 +31,10 @@ type nodeIndex map[string]*nodeItem
 type chunk interface {
 	FirstTokens() *ints.Set
 	IsOptional() bool
-	BuildStates(g *parseResult, stateIndex, nextIndex int)
+	// LoopsBack returns true if BuildStates may add rules leading back to stateIndex.
+	LoopsBack() bool
+	// BuildStates returns indexes of extra states that must get the same continuation as stateIndex.
+	BuildStates(g *parseResult, stateIndex, nextIndex int) []int
 }
 
 type complexChunk interface {
-- 
2.43.0


From dd3cb49417c72f163869792837aafab789efe96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 08/40] fix: parser: a conflict inside of a conflict could
 overwrite branches not processed yet

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index aa31717..c90b49c 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -938,7 +938,7 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 
 	for {
 		branches = nextBranches
-		nextBranches = nextBranches[:0]
+		nextBranches = nil
 		tokens = append(tokens, tok)
 		lastSuccess = nil
 
-- 
2.43.0


From 79c0d02246a069b8c558841305f81c7c2b8938d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 09/40] fix: parser: side tokens passed to node hooks must not
 affect conflict resolution

---
 parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index c90b49c..739b8d4 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -948,7 +948,11 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 			for !q.IsEmpty() {
 				b, _ = q.First()
 				if b.NodeStack.IsEmpty() {
-					lastSuccess = b
+					if pc.isSideToken(tok) {
+						nextBranches = append(nextBranches, b)
+					} else {
+						lastSuccess = b
+					}
 					continue
 				}
 
-- 
2.43.0


From b91dbe6816a4a236f1ba8681211570ac02b5c30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 10/40] fix: parser: do not lose token hook error returned
 while resolving a conflict

---
 parser/parser.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 739b8d4..4d2d7d1 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -494,7 +494,11 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 		}
 
 		for !tokenConsumed && node != nil {
-			rule, found := pc.nextRule(ctx, tok, gr.States[node.state])
+			rule, found, e := pc.nextRule(ctx, tok, gr.States[node.state])
+			if e != nil {
+				return nil, e
+			}
+
 			if !found {
 				if tok == nil {
 					tok, e = pc.nextToken(ctx, lexer.AllTokenTypes)
@@ -723,7 +727,7 @@ func (pc *ParseContext) pullToken(ctx context.Context, types grammar.BitSet, lay
 	}
 }
 
-func (pc *ParseContext) nextRule(ctx context.Context, t *Token, s grammar.State) (r grammar.Rule, found bool) {
+func (pc *ParseContext) nextRule(ctx context.Context, t *Token, s grammar.State) (r grammar.Rule, found bool, e error) {
 	r, found = pc.appliedRules.First()
 	if found {
 		return
@@ -739,7 +743,11 @@ func (pc *ParseContext) nextRule(ctx context.Context, t *Token, s grammar.State)
 		r = rules[0]
 	} else {
 		//		tokens, rules := pc.resolve(ctx, t, rules)
-		tokens, rules := pc.resolveConflict(ctx, t)
+		tokens, rules, e := pc.resolveConflict(ctx, t)
+		if e != nil {
+			return r, false, e
+		}
+
 		r = rules[0]
 		for i := len(tokens) - 1; i >= 1; i-- {
 			pc.tokens.Prepend(tokens[i])
@@ -914,7 +922,7 @@ func (pc *ParseContext) applyRule(ctx context.Context, tok *lexer.Token, rule gr
 	return tokenConsumed, e
 }
 
-func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Token, []grammar.Rule) {
+func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Token, []grammar.Rule, error) {
 	var tokens []*lexer.Token
 	nextBranches := []*parsingBranch{pc.newParsingBranch()}
 	var branches []*parsingBranch
@@ -989,7 +997,7 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 		var e error
 		tok, e = pc.nextToken(ctx, types)
 		if e != nil {
-			break
+			return nil, nil, e
 		}
 	}
 
@@ -1001,5 +1009,5 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 		b = lastError
 	}
 
-	return tokens, b.AppliedRules
+	return tokens, b.AppliedRules, nil
 }
-- 
2.43.0


From 06065f644cd2e70a27e0300d4c9dd5ecf4716fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 11/40] fix: parser: give back tokens fetched by conflict
 resolution but not consumed

---
 parser/parser.go | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 4d2d7d1..cfba47f 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -524,14 +524,10 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 		}
 	}
 
-	if !tokenConsumed && tok.Type() != lexer.EoiTokenType {
-		s := tok.Source()
-		if s != nil {
-			if s != pc.sources.Source() {
-				pc.sources.Prepend(s)
-			}
-			pc.sources.Seek(tok.Pos().Pos())
-		}
+	if tokenConsumed {
+		pc.returnTokens(nil)
+	} else {
+		pc.returnTokens(tok)
 	}
 
 	if pc.fullSource && (tok == nil || tok.Type() != lexer.EoiTokenType) {
@@ -555,6 +551,30 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 	return pc.lastResult, nil
 }
 
+// returnTokens restores source position of the first token that was fetched but not consumed.
+// These are optional tok and all the tokens left after conflict resolution.
+func (pc *ParseContext) returnTokens(tok *Token) {
+	rest := pc.tokens.Items()
+	pc.tokens.Clear()
+	if tok != nil {
+		rest = append([]*Token{tok}, rest...)
+	}
+
+	for i := len(rest) - 1; i >= 0; i-- {
+		if rest[i] == nil || rest[i].Type() == lexer.EoiTokenType {
+			continue
+		}
+
+		s := rest[i].Source()
+		if s != nil {
+			if s != pc.sources.Source() {
+				pc.sources.Prepend(s)
+			}
+			pc.sources.Seek(rest[i].Pos().Pos())
+		}
+	}
+}
+
 func (pc *ParseContext) getExpectedToken(s grammar.State) string {
 	g := pc.parser.grammar
 	index := 0
-- 
2.43.0


From 8f9cff82b922f64a2b4379ce719c4e42671553ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 12/40] fix: parser: wrong or missing expected token in syntax
 error message

---
 parser/parser.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index cfba47f..63eed83 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -577,19 +577,22 @@ func (pc *ParseContext) returnTokens(tok *Token) {
 
 func (pc *ParseContext) getExpectedToken(s grammar.State) string {
 	g := pc.parser.grammar
-	index := 0
-	if s.HighRule > s.LowRule {
-		index = g.Rules[s.LowRule].Token
-		if index < 0 && s.HighRule > s.LowRule+1 {
-			index = g.Rules[s.LowRule+1].Token
+	index := -1
+	for _, r := range g.Rules[s.LowRule:s.HighRule] {
+		if r.Token >= 0 {
+			index = r.Token
+			break
 		}
 	}
 	if s.HighMultiRule > s.LowMultiRule {
 		i := g.MultiRules[s.LowMultiRule].Token
-		if i < index {
+		if index < 0 || i < index {
 			index = i
 		}
 	}
+	if index < 0 {
+		return "end of input"
+	}
 
 	token := g.Tokens[index]
 	if (token.Flags & grammar.LiteralToken) != 0 {
-- 
2.43.0


From 3b3dd292f6a032b9977de64b4c952a9eca846bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 13/40] fix: parser: match end of input and external tokens
 when no other token is expected

---
 parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 63eed83..b2ff5ff 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -501,10 +501,13 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 
 			if !found {
 				if tok == nil {
+					// the state may expect a token that lexers cannot fetch: end of input or an external one
 					tok, e = pc.nextToken(ctx, lexer.AllTokenTypes)
 					if e != nil {
 						return nil, e
 					}
+
+					continue
 				}
 				expected := pc.getExpectedToken(gr.States[node.state])
 				if tok.Type() == lexer.EoiTokenType {
-- 
2.43.0


From d3004edce01d3c77d76ea4bcbc47edc6664f3215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 14/40] fix: parser: error token types must cause lexical error

---
 parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index b2ff5ff..dd3e628 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -86,7 +86,11 @@ func New(g *grammar.Grammar, opts ...Option) (*Parser, error) {
 
 		lr := &lrs[t.Group]
 		pattern := "(" + t.Re + ")"
-		lr.types = append(lr.types, lexer.TokenType{i, t.Name})
+		tt := i
+		if t.Flags&grammar.ErrorToken != 0 {
+			tt = lexer.ErrorTokenType
+		}
+		lr.types = append(lr.types, lexer.TokenType{tt, t.Name})
 		lr.patterns = append(lr.patterns, pattern)
 	}
 
-- 
2.43.0


From 0825df0a7070205b9a8d2a058822d728d14e75f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 15/40] fix: llxgen: generate valid Go code for grammars having
 hook layers

---
 cmd/llxgen/llxgen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/llxgen/llxgen.go b/cmd/llxgen/llxgen.go
index 64aa7ca..e96b6c3 100755
--- a/cmd/llxgen/llxgen.go
+++ b/cmd/llxgen/llxgen.go
@@ -126,7 +126,7 @@ func makeGo(gr *grammar.Grammar) ([]byte, error) {
 	buffer.WriteString("\t},\n")
 
 	if len(gr.Layers) != 0 {
-		buffer.WriteString("\tLayers: []grammar.Layer{\n}")
+		buffer.WriteString("\tLayers: []grammar.Layer{\n")
 		for _, layer := range gr.Layers {
 			buffer.WriteString(fmt.Sprintf("\t\t{Type: %q", layer.Type))
 			if len(layer.Commands) == 0 {
@@ -140,6 +140,7 @@ func makeGo(gr *grammar.Grammar) ([]byte, error) {
 						for _, arg := range command.Arguments[1:] {
 							buffer.WriteString(fmt.Sprintf(", %q", arg))
 						}
+						buffer.WriteString("}")
 					}
 					buffer.WriteString("},\n")
 				}
-- 
2.43.0


From a783d849bdaa0ea0158d51273873e9ae4bf09548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 16/40] fix: llxgen: invalid variable name error mentions
 package name

---
 cmd/llxgen/llxgen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/llxgen/llxgen.go b/cmd/llxgen/llxgen.go
index e96b6c3..cadc060 100755
--- a/cmd/llxgen/llxgen.go
+++ b/cmd/llxgen/llxgen.go
@@ -109,7 +109,7 @@ func makeGo(gr *grammar.Grammar) ([]byte, error) {
 		return nil, fmt.Errorf("invalid package name: %s", packageName)
 	}
 	if !re.MatchString(varName) {
-		return nil, fmt.Errorf("invalid variable name: %s", packageName)
+		return nil, fmt.Errorf("invalid variable name: %s", varName)
 	}
 
 	var buffer bytes.Buffer
-- 
2.43.0


From 12d686219c436d2e3ca295bb23bbdcb75ffd1289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 17/40] fix: parser: do not ignore hook layers using unknown
 names

---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index dd3e628..a0913ac 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -272,7 +272,10 @@ func newParseContext(ctx context.Context, p *Parser, q *source.Queue, hs Hooks)
 
 	for i := len(p.layers) - 1; i >= 0; i-- {
 		hooks := p.layers[i].Init(ctx, result)
-		newHookLayer(p, result, hooks)
+		e = newHookLayer(p, result, hooks)
+		if e != nil {
+			return nil, e
+		}
 	}
 
 	firstToken := lexer.NewToken(grammar.AnyToken, "", nil, q.SourcePos())
-- 
2.43.0


From 6ce7f8ebb5242574c6e1e1b7335907933faba063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 18/40] fix: indent: do not write to source content

---
 parser/layers/indent/indent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/layers/indent/indent.go b/parser/layers/indent/indent.go
index aad3122..b5a1b18 100644
--- a/parser/layers/indent/indent.go
+++ b/parser/layers/indent/indent.go
@@ -285,7 +285,7 @@ func (ls *layerState) adjustIndent(content []byte) state {
 	} else { // fetching multiple space tokens in a row, just in case...
 		tmp := make([]byte, len(ls.currentIndent), len(ls.currentIndent)+len(content))
 		copy(tmp, ls.currentIndent) // avoid spoiling source file
-		ls.currentIndent = append(ls.currentIndent, content...)
+		ls.currentIndent = append(tmp, content...)
 	}
 
 	currentLen := len(ls.currentIndent)
-- 
2.43.0


From 52bb2fd5a9ebfef100429ec85b231ef53fc5f064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 19/40] fix: indent: emit end of input and final dedent tokens
 only once

---
 parser/layers/indent/indent.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser/layers/indent/indent.go b/parser/layers/indent/indent.go
index b5a1b18..46a5062 100644
--- a/parser/layers/indent/indent.go
+++ b/parser/layers/indent/indent.go
@@ -119,7 +119,7 @@ func (ls *layerState) handle(tok *parser.Token, tc *parser.TokenContext) (bool,
 	switch role {
 	case eoiRole:
 		emit = false
-		extra, e = ls.handleEoi(tok)
+		extra, e = ls.handleEoi()
 	case commonRole:
 		emit, extra, e = ls.handleCommon(tok)
 	case spaceRole:
@@ -327,7 +327,7 @@ func (ls *layerState) handleSide(tok *parser.Token, tc *parser.TokenContext) (bo
 	return false, nil, common.MakeWrongTokenError(layerName, tok, errInvalidIndent)
 }
 
-func (ls *layerState) handleEoi(tok *parser.Token) ([]*parser.Token, error) {
+func (ls *layerState) handleEoi() ([]*parser.Token, error) {
 	var result []*parser.Token
 
 	if len(ls.indentStack) != 0 {
@@ -341,8 +341,9 @@ func (ls *layerState) handleEoi(tok *parser.Token) ([]*parser.Token, error) {
 		}
 	}
 
-	result = append(result, ls.pad()...)
-	return append(result, tok), nil
+	ls.indentStack = nil
+	ls.validIndent = nil
+	return append(result, ls.pad()...), nil
 }
 
 func (l *layer) Init(context.Context, *parser.ParseContext) parser.Hooks {
-- 
2.43.0


From e2536e25a42587cf0d96defde2379d73c97ea115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 20/40] fix: indent: special token types used as spaces caused
 panic

---
 parser/layers/indent/indent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/layers/indent/indent.go b/parser/layers/indent/indent.go
index 46a5062..f612091 100644
--- a/parser/layers/indent/indent.go
+++ b/parser/layers/indent/indent.go
@@ -394,7 +394,7 @@ func (t template) Setup(commands []grammar.LayerCommand, p *parser.Parser) (pars
 
 			for _, ttn := range command.Arguments {
 				tt, valid := p.TokenType(ttn)
-				if !valid {
+				if !valid || tt < 0 {
 					return nil, common.MakeUnknownTokenTypeError(layerName, command.Command, ttn)
 				}
 
-- 
2.43.0


From 7bdb7f25ba57cf348b8864ed8d3f6d0e6e862f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 21/40] fix: indent: report unknown and repeated commands

---
 parser/layers/indent/indent.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/layers/indent/indent.go b/parser/layers/indent/indent.go
index f612091..a753f35 100644
--- a/parser/layers/indent/indent.go
+++ b/parser/layers/indent/indent.go
@@ -387,6 +387,10 @@ func (t template) Setup(commands []grammar.LayerCommand, p *parser.Parser) (pars
 		switch command.Command {
 
 		case spaceCommand:
+			if gotSpaces {
+				return nil, common.MakeCommandAlreadyUsedError(layerName, command.Command)
+			}
+
 			gotSpaces = true
 			if len(command.Arguments) == 0 {
 				return nil, common.MakeNumberOfArgumentsError(layerName, command.Command, 1, 0)
@@ -426,6 +430,9 @@ func (t template) Setup(commands []grammar.LayerCommand, p *parser.Parser) (pars
 			if prevType != "" {
 				return nil, common.MakeCommandAlreadyUsedError(layerName, command.Command)
 			}
+
+		default:
+			return nil, common.MakeUnknownCommandError(layerName, command.Command)
 		}
 	}
 
-- 
2.43.0


From 8e62bc17a9ab95074acd75287a5475d9663fedee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 22/40] fix: layers: wrong number of arguments message lacks
 layer name

---
 parser/layers/common/errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/layers/common/errors.go b/parser/layers/common/errors.go
index 62a211c..a1f7d3d 100644
--- a/parser/layers/common/errors.go
+++ b/parser/layers/common/errors.go
@@ -36,7 +36,7 @@ func MakeMissingCommandError(layer, command string) *llx.Error {
 
 func MakeNumberOfArgumentsError(layer, command string, expected, got int) *llx.Error {
 	return llx.FormatError(NumberOfArgumentsError,
-		"wrong number of arguments for %q command for %q layer: expecting %d, got %d", command, expected, got)
+		"wrong number of arguments for %q command for %q layer: expecting %d, got %d", command, layer, expected, got)
 }
 
 func MakeInvalidArgumentError(layer, command, arg, reason string) *llx.Error {
-- 
2.43.0


From bbe4032c5558ecef970bfc5e17a721291dae2cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 23/40] fix: tree: NextTokenElement and PrevTokenElement must
 skip nodes having no tokens

---
 tree/tree.go | 54 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/tree/tree.go b/tree/tree.go
index 3aeeea8..a7f2263 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -95,41 +95,51 @@ func LastTokenElement(n Element) Element {
 // NextTokenElement returns the first token element after given one, if there are any.
 // I.e. the first token element in the next sibling or its parent's next sibling etc.
 func NextTokenElement(n Element) Element {
-	if n == nil {
-		return nil
-	}
-
-	nn := n.Next()
-	for nn == nil {
-		n = n.Parent()
-		if n == nil {
-			return nil
+	for n != nil {
+		nn := n.Next()
+		if nn == nil {
+			// the interface value must be nil if there is no parent
+			pa := n.Parent()
+			if pa == nil {
+				return nil
+			}
+			n = pa
+			continue
 		}
 
-		nn = n.Next()
+		res := FirstTokenElement(nn)
+		if res != nil {
+			return res
+		}
+		n = nn
 	}
 
-	return FirstTokenElement(nn)
+	return nil
 }
 
 // PrevTokenElement returns the last token element before given one, if there are any.
 // I.e. the last token element in the previous sibling or its parent's previous sibling etc.
 func PrevTokenElement(n Element) Element {
-	if n == nil {
-		return nil
-	}
-
-	nn := n.Prev()
-	for nn == nil {
-		n = n.Parent()
-		if n == nil {
-			return nil
+	for n != nil {
+		nn := n.Prev()
+		if nn == nil {
+			// the interface value must be nil if there is no parent
+			pa := n.Parent()
+			if pa == nil {
+				return nil
+			}
+			n = pa
+			continue
 		}
 
-		nn = n.Prev()
+		res := LastTokenElement(nn)
+		if res != nil {
+			return res
+		}
+		n = nn
 	}
 
-	return LastTokenElement(nn)
+	return nil
 }
 
 // Children returns child elements (if there are any) or nil if given element is not a node.
-- 
2.43.0


From 47b95e259f4a8beae79131c48daaee2c16bd3e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 24/40] fix: tree: detach siblings that have no parent

---
 tree/tree.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/tree/tree.go b/tree/tree.go
index a7f2263..9688320 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -161,11 +161,26 @@ func Children(n Element) []Element {
 // Detach removes element from tree. Parent and sibling references are removed, but descendants are kept.
 // Does nothing if the element is the tree root.
 func Detach(n Element) {
-	if n == nil || n.Parent() == nil {
+	if n == nil {
 		return
 	}
 
-	n.Parent().RemoveChild(n)
+	parent := n.Parent()
+	if parent != nil {
+		parent.RemoveChild(n)
+		return
+	}
+
+	prev := n.Prev()
+	next := n.Next()
+	n.SetPrev(nil)
+	n.SetNext(nil)
+	if prev != nil {
+		prev.SetNext(next)
+	}
+	if next != nil {
+		next.SetPrev(prev)
+	}
 }
 
 // Replace replaces old element with new one or simply removes old element if the new one is nil.
-- 
2.43.0


From fc407e90f95a1d109731f7c9538845273e56ec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 25/40] fix: tree: do not make an element a sibling of itself

---
 tree/tree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree/tree.go b/tree/tree.go
index 9688320..9b5cb50 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -201,7 +201,7 @@ func Replace(old, n Element) {
 // Target becomes new element's previous sibling, target's next sibling (if any) becomes new element's next sibling.
 // Does nothing if either new or target element is nil.
 func AppendSibling(prev, el Element) {
-	if el == nil || prev == nil {
+	if el == nil || prev == nil || el == prev {
 		return
 	}
 
@@ -224,7 +224,7 @@ func AppendSibling(prev, el Element) {
 // Target becomes new element's next sibling, target's previous sibling (if any) becomes new element's previous sibling.
 // Does nothing if either new or target element is nil.
 func PrependSibling(next, el Element) {
-	if el == nil || next == nil {
+	if el == nil || next == nil || el == next {
 		return
 	}
 
-- 
2.43.0


From 08d34042e21fbd20335113e8e0f608b3d877f50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 26/40] fix: tree: Replace lost the new element placed next to
 the old one, panicked on a root

---
 tree/tree.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tree/tree.go b/tree/tree.go
index 9b5cb50..d35e7f9 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -190,11 +190,12 @@ func Replace(old, n Element) {
 		return
 	}
 
-	pa := old.Parent()
-	ne := old.Next()
+	if old == n {
+		return
+	}
+
+	AppendSibling(old, n)
 	Detach(old)
-	Detach(n)
-	pa.AddChild(n, ne)
 }
 
 // AppendSibling places new element after target one.
-- 
2.43.0


From bec3e7e0756726ba86123941784e0aac239e5735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:23 +0000
Subject: [PATCH 27/40] fix: langdef: reject empty literal, no token type can
 match it

---
 langdef/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/langdef/parser.go b/langdef/parser.go
index fb7b889..0392d2b 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -1094,6 +1094,11 @@ func assignTokenGroups(g *parseResult, e error) error {
 	}
 
 	for i, lt := range lts {
+		if lt.Name == "" {
+			// there are no empty tokens
+			return unresolvedTokenTypesError(lt.Name)
+		}
+
 		caseless := (lt.Name == strings.ToUpper(lt.Name))
 		for j, re := range res {
 			rt := rts[j]
-- 
2.43.0


From 85249a2793993fc52d3a243b83457ba8eae7fba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 28/40] fix: parser: full source check lost an unconsumed token
 emitted by a hook

---
 parser/parser.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index a0913ac..a017313 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -534,19 +534,29 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 		}
 	}
 
-	if tokenConsumed {
-		pc.returnTokens(nil)
-	} else {
-		pc.returnTokens(tok)
+	if !pc.fullSource {
+		if tokenConsumed {
+			pc.returnTokens(nil)
+		} else {
+			pc.returnTokens(tok)
+		}
+		return pc.lastResult, nil
 	}
 
-	if pc.fullSource && (tok == nil || tok.Type() != lexer.EoiTokenType) {
+	if tok == nil || tok.Type() != lexer.EoiTokenType {
+		if !tokenConsumed && tok != nil {
+			pc.tokens.Prepend(tok)
+		}
 		for {
 			tok, e = pc.nextToken(ctx, lexer.AllTokenTypes)
 			if e != nil {
 				return nil, e
 			}
 
+			if tok == nil {
+				continue
+			}
+
 			tt := tok.Type()
 			if tt == lexer.EoiTokenType {
 				break
-- 
2.43.0


From dfdccc495769aa24abb1debcf1e97b0f6170f5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 29/40] fix: parser: endless loop if no token type of a grammar
 can be fetched

---
 parser/parser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index a017313..9f549d2 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -873,11 +873,16 @@ func (pc *ParseContext) fetchToken(types grammar.BitSet) (*Token, error) {
 		}
 	}
 
-	if types == lexer.AllTokenTypes {
+	if types != lexer.AllTokenTypes {
+		return nil, nil
+	}
+
+	if firstError != nil {
 		return nil, firstError
 	}
 
-	return nil, nil
+	// lexers of the grammar with no fetchable token types return neither token nor error
+	return pc.parser.lexers[0].Next(pc.sources)
 }
 
 func (pc *ParseContext) isSideToken(t *Token) bool {
-- 
2.43.0


From 511c5476983fa7660b238a61d5b58b9304b20626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:02 +0000
Subject: [PATCH 30/40] fix: langdef: fallback rules shared by several states
 were renumbered more than once

---
 langdef/result.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/langdef/result.go b/langdef/result.go
index 29ec4d5..13ed1bb 100644
--- a/langdef/result.go
+++ b/langdef/result.go
@@ -126,7 +126,7 @@ func (se *stateEntry) CopyRules(from *stateEntry) {
 		if k >= 0 {
 			se.Rules[k] = append(se.Rules[k], rs...)
 		} else {
-			se.Rules[k] = rs
+			se.Rules[k] = append([]grammar.Rule(nil), rs...)
 		}
 	}
 }
-- 
2.43.0


From aac461ee94cc2df40ce2c2dc4f23482dce4626de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 31/40] fix: langdef: a repeated variant inside of a repeated
 list could not be followed by other variants

---
 langdef/chunks.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/langdef/chunks.go b/langdef/chunks.go
index f64bb5f..86427d3 100755
--- a/langdef/chunks.go
+++ b/langdef/chunks.go
@@ -152,7 +152,7 @@ func (c *groupChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) (ext
 	if c.isRepeated {
 		g.States[stateIndex].DropBypass(stateIndex)
 	}
-	if !needExtraRule && c.canBeEmpty() {
+	if !needExtraRule && !c.isRepeated && c.canBeEmpty() {
 		extra = extras[0]
 	}
 	return
-- 
2.43.0


From 58e982a9c1f26b449214a3c1c80491a43d6a0a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:45 +0000
Subject: [PATCH 32/40] fix: convert: save-position command takes no arguments

---
 parser/layers/convert/convert.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/layers/convert/convert.go b/parser/layers/convert/convert.go
index df403f7..ca2c684 100644
--- a/parser/layers/convert/convert.go
+++ b/parser/layers/convert/convert.go
@@ -125,6 +125,10 @@ func (t template) Setup(commands []grammar.LayerCommand, p *parser.Parser) (pars
 			}
 
 		case savePositionCommand:
+			if len(command.Arguments) != 0 {
+				return nil, common.MakeNumberOfArgumentsError(layerName, command.Command, 0, len(command.Arguments))
+			}
+
 			savePosition = true
 
 		default:
-- 
2.43.0


From 87b769eae4a4bb7430fac31324001a0638314e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:41 +0000
Subject: [PATCH 33/40] fix: langdef: detect regrouping of a token type that is
 not defined yet

---
 langdef/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/langdef/parser.go b/langdef/parser.go
index 0392d2b..1e11aa2 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -572,6 +572,10 @@ func (c *parseContext) parseGroupDir() error {
 			c.result.Tokens[i].Group = c.currentGroup
 		} else {
 			i = c.addExtraToken(name)
+			if c.extraTokens[i].group != 0 {
+				return reassignedGroupError(name)
+			}
+
 			c.extraTokens[i].group = c.currentGroup
 		}
 	}
-- 
2.43.0


From 58f2f2d10f3a963100134b00dca724006027e115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:44 +0000
Subject: [PATCH 34/40] fix: langdef: do not ignore an error in the first layer
 command argument

---
 langdef/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 1e11aa2..2b902d0 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -645,7 +645,11 @@ func (c *parseContext) parseLayerDef(t *lexer.Token) error {
 			return e
 		}
 
-		token, _ = c.fetchOne(rBraceTok, false, e)
+		token, e = c.fetchOne(rBraceTok, false, nil)
+		if e != nil {
+			return e
+		}
+
 		if token != nil {
 			layer.Commands = append(layer.Commands, command)
 			continue
-- 
2.43.0


From 337cd058a33a695b603fca8c2d643c35e11d9ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:46 +0000
Subject: [PATCH 35/40] fix: langdef: report a regular expression that cannot
 be a part of a bigger one

---
 langdef/parser.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 2b902d0..bfedf0a 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -741,6 +741,10 @@ func (c *parseContext) fetchRegexp(e error) (string, error) {
 
 	re := string(contents)
 	_, e = regexp.Compile(re)
+	if e == nil {
+		// must be usable as a part of a bigger expression
+		_, e = regexp.Compile(wrapRegexp(re))
+	}
 	if e != nil {
 		return "", regexpError(tokens[0], e)
 	}
@@ -748,6 +752,10 @@ func (c *parseContext) fetchRegexp(e error) (string, error) {
 	return re, nil
 }
 
+func wrapRegexp(re string) string {
+	return `(?s:` + re + `)`
+}
+
 func (c *parseContext) addNode(name string, define bool) *nodeItem {
 	var group *groupChunk = nil
 	if define {
@@ -1088,7 +1096,7 @@ func assignTokenGroups(g *parseResult, e error) error {
 		}
 
 		if (t.Flags & grammar.NoLiteralsToken) == 0 {
-			res[rcnt] = regexp.MustCompile(`(?s:` + t.Re + `)`)
+			res[rcnt] = regexp.MustCompile(wrapRegexp(t.Re))
 		}
 	}
 	rts := ts[:rcnt]
-- 
2.43.0


From 5e5dd10ed32f824959eef5e16fbb2a57720eac57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:49 +0000
Subject: [PATCH 36/40] fix: langdef: do not let !extern define the reserved
 token type

---
 langdef/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/langdef/parser.go b/langdef/parser.go
index bfedf0a..86532e4 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -547,6 +547,10 @@ func (c *parseContext) parseTokenFlagDir(name string) error {
 		flag = grammar.ErrorToken
 	}
 	for _, token := range tokens {
+		if name == externDir && token.Text() == "$" {
+			return defTokenError(token)
+		}
+
 		c.addTokenFlag(token.Text()[1:], flag)
 	}
 
-- 
2.43.0


From cba9d2608905d2fff206b7ef139ba34a1d351fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:26 +0000
Subject: [PATCH 37/40] fix: langdef: searching for recursive nodes took
 exponential time

---
 langdef/parser.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 86532e4..d17e3a6 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -1055,8 +1055,9 @@ func findRecursions(g *parseResult, e error) error {
 	}
 
 	ntis := ints.NewSet()
+	visited := make(map[int]bool, len(g.Nodes))
 	for i := range g.Nodes {
-		if ntIsRecursive(g, i, ints.NewSet()) {
+		if ntIsRecursive(g, i, visited) {
 			ntis.Add(i)
 		}
 	}
@@ -1068,16 +1069,24 @@ func findRecursions(g *parseResult, e error) error {
 	}
 }
 
-func ntIsRecursive(g *parseResult, index int, visited *ints.Set) bool {
-	visited.Add(index)
+// ntIsRecursive returns true if the node may start with itself or with some other recursive node.
+// visited contains results for nodes that are already processed, nodes being processed are considered recursive.
+func ntIsRecursive(g *parseResult, index int, visited map[int]bool) bool {
+	result, has := visited[index]
+	if has {
+		return result
+	}
+
+	visited[index] = true
 	st := g.States[g.Nodes[index].FirstState]
 	for _, rs := range st.Rules {
 		for _, r := range rs {
-			if r.Node != grammar.SameNode && (visited.Contains(r.Node) || ntIsRecursive(g, r.Node, visited.Copy())) {
+			if r.Node != grammar.SameNode && ntIsRecursive(g, r.Node, visited) {
 				return true
 			}
 		}
 	}
+	visited[index] = false
 	return false
 }
 
-- 
2.43.0


From 7c93db6cfa19bc3df123888e2d3548b6f71fa513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:39 +0000
Subject: [PATCH 38/40] fix: llxgen: refuse package and variable names that
 cannot be compiled

---
 cmd/llxgen/llxgen.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cmd/llxgen/llxgen.go b/cmd/llxgen/llxgen.go
index cadc060..735de80 100755
--- a/cmd/llxgen/llxgen.go
+++ b/cmd/llxgen/llxgen.go
@@ -21,6 +21,7 @@ import (
 	"encoding/json"
 	"flag"
 	"fmt"
+	"go/token"
 	"os"
 	"path/filepath"
 	"regexp"
@@ -105,10 +106,10 @@ func makeGo(gr *grammar.Grammar) ([]byte, error) {
 	}
 
 	re := regexp.MustCompile("^[A-Za-z_][A-Za-z_0-9]*$")
-	if !re.MatchString(packageName) {
+	if !re.MatchString(packageName) || token.IsKeyword(packageName) || packageName == "_" {
 		return nil, fmt.Errorf("invalid package name: %s", packageName)
 	}
-	if !re.MatchString(varName) {
+	if !re.MatchString(varName) || token.IsKeyword(varName) || isReservedName(varName) {
 		return nil, fmt.Errorf("invalid variable name: %s", varName)
 	}
 
@@ -206,6 +207,17 @@ func makeGo(gr *grammar.Grammar) ([]byte, error) {
 	return buffer.Bytes(), nil
 }
 
+// isReservedName returns true if the name cannot be used for a variable in generated source.
+func isReservedName(name string) bool {
+	switch name {
+	case "_", "init", "grammar", "string":
+		return true
+	case "main":
+		return packageName == "main"
+	}
+	return false
+}
+
 func findMultiRuleState(gr *grammar.Grammar, state int) (nextIndex, nextItem int) {
 	for i := state; i < len(gr.States); i++ {
 		if gr.States[i].HighMultiRule != 0 {
-- 
2.43.0


From 2db6a55d588793b432ff39e3b25339d47d7c4fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:39 +0000
Subject: [PATCH 39/40] fix: llxgen: do not write JSON that loads as a
 different grammar

---
 cmd/llxgen/llxgen.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cmd/llxgen/llxgen.go b/cmd/llxgen/llxgen.go
index 735de80..03e211d 100755
--- a/cmd/llxgen/llxgen.go
+++ b/cmd/llxgen/llxgen.go
@@ -25,6 +25,7 @@ import (
 	"os"
 	"path/filepath"
 	"regexp"
+	"unicode/utf8"
 
 	"github.com/ava12/llx/grammar"
 	"github.com/ava12/llx/langdef"
@@ -88,6 +89,21 @@ func main() {
 }
 
 func makeJson(gr *grammar.Grammar) ([]byte, error) {
+	for _, t := range gr.Tokens {
+		if !utf8.ValidString(t.Name) {
+			return nil, fmt.Errorf("JSON cannot contain invalid UTF-8 literal: %q", t.Name)
+		}
+	}
+	for _, layer := range gr.Layers {
+		for _, command := range layer.Commands {
+			for _, arg := range command.Arguments {
+				if !utf8.ValidString(arg) {
+					return nil, fmt.Errorf("JSON cannot contain invalid UTF-8 argument: %q", arg)
+				}
+			}
+		}
+	}
+
 	return json.MarshalIndent(gr, "", "  ")
 }
 
-- 
2.43.0


From 36fb6864a027bc5a1c737d4cfbca185a483fbe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:57 +0000
Subject: [PATCH 40/40] fix: source: make the line number hint safe for
 concurrent use

---
 source/source.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/source/source.go b/source/source.go
index 52d45d9..3486aff 100755
--- a/source/source.go
+++ b/source/source.go
@@ -3,6 +3,7 @@ package source
 
 import (
 	"bytes"
+	"sync/atomic"
 	"unicode/utf8"
 
 	"github.com/ava12/llx/internal/queue"
@@ -13,7 +14,7 @@ type Source struct {
 	name          string
 	content       []byte
 	lineStarts    []int
-	prevLineIndex int
+	prevLineIndex atomic.Int64
 }
 
 // New creates new source.
@@ -21,7 +22,8 @@ type Source struct {
 // Content should be a valid UTF-8 encoded text, lines should be separated by "\n" rune.
 // Content should not be modified.
 func New(name string, content []byte) *Source {
-	s := &Source{name: name, content: content, prevLineIndex: -1}
+	s := &Source{name: name, content: content}
+	s.prevLineIndex.Store(-1)
 	lineCnt := bytes.Count(content, []byte("\n")) + 1
 	s.lineStarts = make([]int, lineCnt)
 	s.lineStarts[0] = 0
@@ -102,14 +104,16 @@ func (s *Source) Pos(line, col int) int {
 }
 
 func (s *Source) findLineIndex(pos int) int {
-	if s.prevLineIndex >= 0 && s.lineStarts[s.prevLineIndex] <= pos {
-		lineIndex := s.prevLineIndex
+	// the hint may be changed by another goroutine at any moment
+	prevLineIndex := int(s.prevLineIndex.Load())
+	if prevLineIndex >= 0 && s.lineStarts[prevLineIndex] <= pos {
+		lineIndex := prevLineIndex
 		last := len(s.lineStarts) - 1
 		for lineIndex <= last && s.lineStarts[lineIndex] <= pos {
 			lineIndex++
 		}
 		lineIndex--
-		s.prevLineIndex = lineIndex
+		s.prevLineIndex.Store(int64(lineIndex))
 		return lineIndex
 	}
 
@@ -117,9 +121,9 @@ func (s *Source) findLineIndex(pos int) int {
 	leftIndex := 0
 	rightIndex := len(s.lineStarts) - 1
 	index := 0
-	if s.prevLineIndex >= 0 {
-		lineStart = s.lineStarts[s.prevLineIndex]
-		rightIndex = s.prevLineIndex
+	if prevLineIndex >= 0 {
+		lineStart = s.lineStarts[prevLineIndex]
+		rightIndex = prevLineIndex
 	}
 	for leftIndex < rightIndex {
 		index = (leftIndex + rightIndex + 1) >> 1
@@ -135,7 +139,7 @@ func (s *Source) findLineIndex(pos int) int {
 			index = rightIndex
 		}
 	}
-	s.prevLineIndex = index
+	s.prevLineIndex.Store(int64(index))
 	return index
 }
 
-- 
2.43.0

