From b4c21e82d22892f56395ad2abae333a23bde062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 01/45] fix: PositionLookup of a char on an earlier line of a
 multi-line text

---
 charstream.go | 41 +++++++++--------------------------------
 1 file changed, 9 insertions(+), 32 deletions(-)

diff --git a/charstream.go b/charstream.go
index c92c025..02334fa 100644
--- a/charstream.go
+++ b/charstream.go
@@ -99,40 +99,17 @@ func (inst *positionMap) lookup(idx int) *Position {
 		return &Position{Line: 1, Col: idx + 1}
 	}
 
-	// the case of "last read char is '\n'"
-	if maxLineIdx > 0 && inst.lines[maxLineIdx] == inst.lines[maxLineIdx-1] {
-		// the last line is not a real line, but the case indicator
-		maxLineIdx = maxLineIdx - 1
-	}
-
-	lineIdx := 0
-	var col int
-	// do reverse linear lookup (TODO: binary lookup should be faster)
-	for i := maxLineIdx; i >= 0; i-- {
-		if idx >= inst.lines[i] {
-			lineIdx = i
-			break
-		}
-	}
-
-	// now the idx is garrenttee >= the lineIdx
-	// we found a line
-	//if lineIdx == 0 {
-	//	// if it's the 1st line, the col is the idx + 1
-	//	col = idx + 1
-	//} else {
-	//	// if it has a previous line, the col is
-	if idx == inst.lines[lineIdx] {
-		if lineIdx > 0 {
-			col = idx - inst.lines[lineIdx-1]
-		} else {
-			col = idx + 1
-		}
-	} else {
-		lineIdx = lineIdx + 1
+	// the char is on the first line whose last char is at or after idx, do reverse linear lookup
+	// (TODO: binary lookup should be faster). When the last read char is a '\n', the extra last
+	// line repeats the index of that '\n', so it's never picked
+	lineIdx := maxLineIdx
+	for lineIdx > 0 && inst.lines[lineIdx-1] >= idx {
+		lineIdx--
+	}
+	col := idx + 1
+	if lineIdx > 0 {
 		col = idx - inst.lines[lineIdx-1]
 	}
-	//}
 
 	return &Position{Line: lineIdx + 1, Col: col}
 }
-- 
2.43.0


From 8230d5cb674d03a94b2f634a9e12d20e8d8274ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:14 +0000
Subject: [PATCH 02/45] fix: Position of a charstream is not thread-safe

---
 charstream.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/charstream.go b/charstream.go
index 02334fa..e949e57 100644
--- a/charstream.go
+++ b/charstream.go
@@ -264,8 +264,9 @@ type CharstreamString struct {
 }
 
 func (inst *CharstreamString) Position() *Position {
-	inst.lock.RLock()
-	defer inst.lock.RUnlock()
+	// not a read lock, the position map may be updated
+	inst.lock.Lock()
+	defer inst.lock.Unlock()
 
 	if inst.cursor >= len(inst.chars) {
 		// cursor is at EOF
@@ -483,6 +484,9 @@ func (inst *CharstreamPrepend) Match(input []rune) ([]rune, bool) {
 }
 
 func (inst *CharstreamPrepend) Position() *Position {
+	inst.lock.RLock()
+	defer inst.lock.RUnlock()
+
 	if inst.cursor >= len(inst.prepend) {
 		return inst.charstream.Position()
 	}
-- 
2.43.0


From ebd157626e7beb8dbb157e6f3e7df5ee701a73cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 03/45] fix: range rule matches any skipped whitespace at or
 above its end

---
 rule_terminal_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index 18f02e8..c5a14a5 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -42,7 +42,7 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 		skippedWSpaces := charstream.SkipSpaces()
 		evalResult.CharsRead = append(evalResult.CharsRead, skippedWSpaces...)
 		for i, char := range skippedWSpaces {
-			if inst.begin <= char && char >= inst.end {
+			if inst.begin <= char && char <= inst.end {
 				// matched
 				evalResult.CharsUnused = skippedWSpaces[i+1:]
 				node.Chars = append(node.Chars, char)
-- 
2.43.0


From 519f9dd4b41c43b93df057a02d60ccf2296c4a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 04/45] fix: position of a range node is the position of the
 char before it

---
 rule_terminal_range.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index c5a14a5..5891918 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -35,7 +35,6 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 		Virtual:   inst.virtual,
 		NonData:   inst.nondata,
 		Sticky:    true,
-		Position:  charstream.PositionLookup(charstream.Cursor() - 1),
 	}
 
 	if flagLeadingSpaces == SUGGEST_SKIP {
@@ -46,6 +45,7 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 				// matched
 				evalResult.CharsUnused = skippedWSpaces[i+1:]
 				node.Chars = append(node.Chars, char)
+				node.Position = charstream.PositionLookup(charstream.Cursor() - len(skippedWSpaces) + i)
 				evalResult.Node = node
 				return evalResult
 			}
@@ -57,6 +57,7 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 	char := charstream.Peek()
 	if inst.begin <= char && char <= inst.end {
 		// matched
+		node.Position = startPos
 		char = charstream.Next()
 		evalResult.CharsRead = append(evalResult.CharsRead, char)
 		node.Chars = append(node.Chars, char)
-- 
2.43.0


From 78108ff98df48b44762ad26827c39e0d8e128486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:35 +0000
Subject: [PATCH 05/45] fix: position of a chars node whose text starts with
 whitespace

---
 rule_terminal_chars.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rule_terminal_chars.go b/rule_terminal_chars.go
index b2ad7cb..18b95a3 100644
--- a/rule_terminal_chars.go
+++ b/rule_terminal_chars.go
@@ -37,7 +37,6 @@ func (inst *TerminalCharsRule) Eval(grammar *Grammar, charstream ICharstream, fl
 
 	startPos := charstream.Position()
 
-	startCursor := charstream.Cursor()
 	text := inst.text
 	if flagLeadingSpaces == SUGGEST_SKIP {
 		leadingWSpaces := leadingWhiteSpace(text)
@@ -51,7 +50,6 @@ func (inst *TerminalCharsRule) Eval(grammar *Grammar, charstream ICharstream, fl
 			evalResult.ErrIdx = charstream.Cursor()
 			return evalResult
 		}
-		startCursor = startCursor + len(skippedWSpaces)
 		// now we need to check if the leadingWSpace matches the end of skippedWSpace
 		skippedWSpaces = skippedWSpaces[len(skippedWSpaces)-len(leadingWSpaces):]
 		for i, skippedWSpace := range skippedWSpaces {
@@ -75,7 +73,7 @@ func (inst *TerminalCharsRule) Eval(grammar *Grammar, charstream ICharstream, fl
 		evalResult.ErrIdx = charstream.Cursor()
 		return evalResult
 	}
-	node.Position = charstream.PositionLookup(startCursor)
+	node.Position = charstream.PositionLookup(charstream.Cursor() - len(inst.text))
 	node.Chars = append(node.Chars, inst.text...)
 	evalResult.Node = node
 	return evalResult
-- 
2.43.0


From 0d09854548bb64dd5073e8f9234c8e21041ad397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 06/45] fix: node of an empty string rule has no position

---
 rule_terminal_string.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rule_terminal_string.go b/rule_terminal_string.go
index 18de378..c77b762 100644
--- a/rule_terminal_string.go
+++ b/rule_terminal_string.go
@@ -74,7 +74,11 @@ func (inst *TerminalStringRule) Eval(grammar *Grammar, charstream ICharstream, f
 		evalResult.ErrIdx = charstream.Cursor()
 		return evalResult
 	}
-	node.Position = charstream.PositionLookup(charstream.Cursor() - len(inst.text))
+	if len(inst.text) > 0 {
+		node.Position = charstream.PositionLookup(charstream.Cursor() - len(inst.text))
+	} else {
+		node.Position = charstream.Position() // no char matched, it's where the next char is
+	}
 	node.Chars = append(node.Chars, inst.text...)
 	evalResult.Node = node
 	return evalResult
-- 
2.43.0


From fafd70b135938ef60da1708f914cbabaaa1098f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 07/45] fix: concatenate and repetition rules duplicate or lose
 chars read ahead by their child rules

---
 rule_concatenate.go | 7 ++-----
 rule_repetition.go  | 7 ++-----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/rule_concatenate.go b/rule_concatenate.go
index ab32e3b..bd95b8d 100644
--- a/rule_concatenate.go
+++ b/rule_concatenate.go
@@ -35,9 +35,9 @@ func (inst *ConcatenateRule) Eval(grammar *Grammar, charstream ICharstream, flag
 		Virtual:   inst.virtual,
 		NonData:   inst.nondata,
 	}
-	cs := charstream
 	for _, rule := range inst.rules {
-		cs = newCharstreamPrepend(cs, evalResult.CharsUnused)
+		// all chars read so far are read from charstream, so the unused ones go in front of charstream
+		cs := newCharstreamPrepend(charstream, evalResult.CharsUnused)
 		result := rule.Eval(grammar, cs, flagLeadingSpaces)
 		//
 		// Update evalResult.CharsRead and evalResult.CharsUnused
@@ -56,9 +56,6 @@ func (inst *ConcatenateRule) Eval(grammar *Grammar, charstream ICharstream, flag
 		} else {
 			resultCharsUsed := result.charsUsed()
 			evalResult.CharsUnused = evalResult.CharsUnused[len(resultCharsUsed):] // unusedLeft
-			if len(evalResult.CharsUnused) < len(resultCharsUsed) {
-				evalResult.CharsUnused = result.CharsUnused
-			}
 		}
 
 		if !result.Sticky {
diff --git a/rule_repetition.go b/rule_repetition.go
index 758767a..d53b46b 100644
--- a/rule_repetition.go
+++ b/rule_repetition.go
@@ -43,11 +43,11 @@ func (inst *RepetitionRule) Eval(grammar *Grammar, charstream ICharstream, flagL
 		Virtual:   inst.virtual,
 		NonData:   inst.nondata,
 	}
-	cs := charstream
 	var nodes []*Node // all found matched nodes
 	rule := inst.rule
 	for {
-		cs = newCharstreamPrepend(cs, evalResult.CharsUnused)
+		// all chars read so far are read from charstream, so the unused ones go in front of charstream
+		cs := newCharstreamPrepend(charstream, evalResult.CharsUnused)
 		if cs.Peek() == EOFChar {
 			break
 		}
@@ -69,9 +69,6 @@ func (inst *RepetitionRule) Eval(grammar *Grammar, charstream ICharstream, flagL
 		} else {
 			resultCharsUsed := result.charsUsed()
 			evalResult.CharsUnused = evalResult.CharsUnused[len(resultCharsUsed):] // unusedLeft
-			if len(evalResult.CharsUnused) < len(resultCharsUsed) {
-				evalResult.CharsUnused = result.CharsUnused
-			}
 		}
 
 		if !result.Sticky {
-- 
2.43.0


From 6223faa5be8941b0d4eea52fa3346ec2aa552528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 08/45] fix: EvalRaw loses or duplicates chars read ahead by
 root rules

---
 grammar.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/grammar.go b/grammar.go
index c39d380..456184e 100644
--- a/grammar.go
+++ b/grammar.go
@@ -327,19 +327,17 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 		return nil, fmt.Errorf("Empty Stream/EOF encountered")
 	}
 	ast := &AST{}
-	cs := charstream
-	var charsUnused []rune
+	var charsUnused []rune // chars read from charstream but not used by any AST node yet
 	flagLeadingSpaces := SUGGEST_SKIP
 	for {
-		cs = newCharstreamPrepend(cs, charsUnused)
-		if cs.Peek() == EOFChar {
+		if newCharstreamPrepend(charstream, charsUnused).Peek() == EOFChar {
 			break
 		}
 		resultsMatched := make(map[string]*EvalResult)
 		resultsError := make(map[string]*EvalResult)
-		var maxCharsRead []rune
+		maxCharsRead := charsUnused
 		for name, ruleRecord := range inst.rootRules {
-			cs = newCharstreamPrepend(cs, maxCharsRead)
+			cs := newCharstreamPrepend(charstream, maxCharsRead)
 			result := ruleRecord.rule.Eval(inst, cs, flagLeadingSpaces)
 			if len(maxCharsRead) < len(result.CharsRead) {
 				maxCharsRead = result.CharsRead
@@ -394,7 +392,6 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 			}
 			charsUnused = maxCharsRead[maxResult.countCharsUsed():]
 		}
-		cs = charstream
 	}
 	if len(ast.Nodes) == 0 {
 		return nil, fmt.Errorf("no AST node found")
-- 
2.43.0


From 4ce537aa0c7ac172be2089c7dba9736dfb6f7339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 09/45] fix: chars read by an ambiguous choice are not reported
 as unused

---
 rule_choice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rule_choice.go b/rule_choice.go
index b7683bf..2614d29 100644
--- a/rule_choice.go
+++ b/rule_choice.go
@@ -99,6 +99,7 @@ func (inst *ChoiceRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadi
 					buf.WriteString(fmt.Sprintf("\t\n%s: %s", resultFound.Node.RuleName, string(resultFound.Node.Text())))
 					buf.WriteString(fmt.Sprintf("\t\n%s: %s", result.Node.RuleName, string(result.Node.Text())))
 					evalResult.Error = errors.New(buf.String())
+					evalResult.CharsUnused = evalResult.CharsRead
 					return evalResult
 				}
 				maxUsed = countCharsUsed
-- 
2.43.0


From 14f75c2f1d4ffab20802a69ab43e7246bf10cdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 10/45] fix: ambiguity among shorter matches hides the longest
 match depending on rule order

---
 grammar.go     | 16 ++++++++++------
 rule_choice.go | 41 ++++++++++++++++++++---------------------
 2 files changed, 30 insertions(+), 27 deletions(-)

diff --git a/grammar.go b/grammar.go
index 456184e..75fbfa7 100644
--- a/grammar.go
+++ b/grammar.go
@@ -372,18 +372,22 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 		default: // we found more than 1 matches, the most greedy one wins
 			maxCountCharsUsed := 0
 			var maxResult *EvalResult
+			var tiedResult *EvalResult // another match using as many chars as maxResult
 			for _, result := range resultsMatched {
 				countCharsUsed := result.countCharsUsed()
-				if countCharsUsed == maxCountCharsUsed && maxResult != nil {
-					return nil, fmt.Errorf("ambiguity found: %s(\"%s\") vs %s(\"%s\")",
-						result.Node.RuleName, string(result.CharsRead),
-						maxResult.Node.RuleName, string(maxResult.CharsRead))
-				}
-				if countCharsUsed >= maxCountCharsUsed {
+				if maxResult == nil || countCharsUsed > maxCountCharsUsed {
 					maxResult = result
 					maxCountCharsUsed = countCharsUsed
+					tiedResult = nil
+				} else if countCharsUsed == maxCountCharsUsed {
+					tiedResult = result
 				}
 			}
+			if tiedResult != nil {
+				return nil, fmt.Errorf("ambiguity found: %s(\"%s\") vs %s(\"%s\")",
+					tiedResult.Node.RuleName, string(tiedResult.CharsRead),
+					maxResult.Node.RuleName, string(maxResult.CharsRead))
+			}
 			ast.Nodes = append(ast.Nodes, maxResult.Node)
 			if maxResult.Sticky {
 				flagLeadingSpaces = SUGGEST_NOT_SKIP
diff --git a/rule_choice.go b/rule_choice.go
index 2614d29..4fe4bce 100644
--- a/rule_choice.go
+++ b/rule_choice.go
@@ -79,31 +79,30 @@ func (inst *ChoiceRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadi
 			break
 		} else { // we found multiple matches, get the one that is most greedy, ie. uses most chars
 			maxUsed := 0
+			var resultTied *EvalResult // another match using as many chars as resultFound
 			for _, result := range resultsMatched {
 				countCharsUsed := result.countCharsUsed()
-				if countCharsUsed < maxUsed {
-					continue
+				if resultFound == nil || countCharsUsed > maxUsed {
+					maxUsed = countCharsUsed
+					resultFound = result
+					resultTied = nil
+				} else if countCharsUsed == maxUsed {
+					resultTied = result
 				}
-				if countCharsUsed == maxUsed {
-					if resultFound == nil {
-						resultFound = result
-						continue
-					}
-					// we found ambiguity
-					var buf strings.Builder
-					if inst.name == "" {
-						buf.WriteString("ambiguity found:")
-					} else {
-						buf.WriteString(fmt.Sprintf("rule %s: ambiguity found", inst.name))
-					}
-					buf.WriteString(fmt.Sprintf("\t\n%s: %s", resultFound.Node.RuleName, string(resultFound.Node.Text())))
-					buf.WriteString(fmt.Sprintf("\t\n%s: %s", result.Node.RuleName, string(result.Node.Text())))
-					evalResult.Error = errors.New(buf.String())
-					evalResult.CharsUnused = evalResult.CharsRead
-					return evalResult
+			}
+			if resultTied != nil {
+				// we found ambiguity
+				var buf strings.Builder
+				if inst.name == "" {
+					buf.WriteString("ambiguity found:")
+				} else {
+					buf.WriteString(fmt.Sprintf("rule %s: ambiguity found", inst.name))
 				}
-				maxUsed = countCharsUsed
-				resultFound = result
+				buf.WriteString(fmt.Sprintf("\t\n%s: %s", resultFound.Node.RuleName, string(resultFound.Node.Text())))
+				buf.WriteString(fmt.Sprintf("\t\n%s: %s", resultTied.Node.RuleName, string(resultTied.Node.Text())))
+				evalResult.Error = errors.New(buf.String())
+				evalResult.CharsUnused = evalResult.CharsRead
+				return evalResult
 			}
 			break
 		}
-- 
2.43.0


From 88ca70ec6b07a0a3ea0494dac1dd0977f2744b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:56 +0000
Subject: [PATCH 11/45] fix: text matched by more than one exclude rule of a
 block is not excluded

---
 rule.go | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/rule.go b/rule.go
index 6a413d8..1bae585 100644
--- a/rule.go
+++ b/rule.go
@@ -296,26 +296,15 @@ func mostGreedy(grammar *Grammar, charStream ICharstream, flagLeadingSpaces int,
 	} else if matches == 1 {
 		resultFound = resultsMatched[0]
 	} else { // we found multiple matches, get the one that is most greedy, ie. uses most chars
+		// the 1st one wins if there are more than one, they match exactly the same chars
 		maxUsed := 0
-		var maxResult *EvalResult
 		for _, result := range resultsMatched {
 			countCharsUsed := result.countCharsUsed()
-			if countCharsUsed < maxUsed {
-				continue
+			if resultFound == nil || countCharsUsed > maxUsed {
+				maxUsed = countCharsUsed
+				resultFound = result
 			}
-			if countCharsUsed == maxUsed && maxResult != nil {
-				// we found ambiguity
-				var buf strings.Builder
-				buf.WriteString("ambiguity found:")
-				buf.WriteString(fmt.Sprintf("\t\n%s", string(maxResult.Node.Text())))
-				buf.WriteString(fmt.Sprintf("\t\n%s", string(result.Node.Text())))
-				evalResult.Error = errors.New(buf.String())
-				return evalResult
-			}
-			maxUsed = countCharsUsed
-			maxResult = result
 		}
-		resultFound = maxResult
 	}
 	evalResult.CharsRead = maxCharsRead
 	evalResult.Node = resultFound.Node
-- 
2.43.0


From dcc30d7dad4e281cdbf5a2a91953c96c08e3b0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:48 +0000
Subject: [PATCH 12/45] fix: block rule miscounts the chars read for its
 escape, exclude and close rules

---
 rule_block.go | 90 +++++++++++++++++++--------------------------------
 1 file changed, 33 insertions(+), 57 deletions(-)

diff --git a/rule_block.go b/rule_block.go
index cb40c07..6144ecd 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -70,16 +70,24 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 		Sticky:    false, // block of text is always non-sticky,
 	}
 
-	cs := charstream
-	var charsUsed []rune
-	var charsUnused []rune
+	countUsed := 0 // of all chars in evalResult.CharsRead, how many are used so far
+	charsUnused := func() ICharstream {
+		return newCharstreamPrepend(charstream, evalResult.CharsRead[countUsed:])
+	}
+	// the chars a result has read start at the 1st unused char, need to add the extra chars to evalResult.CharsRead
+	updateCharsRead := func(result *EvalResult) {
+		countUnused := len(evalResult.CharsRead) - countUsed
+		if len(result.CharsRead) > countUnused {
+			evalResult.CharsRead = append(evalResult.CharsRead, result.CharsRead[countUnused:]...)
+		}
+	}
 
 	// check the open chars of the block text
-	result := inst.open.Eval(grammar, cs, flagLeadingSpaces)
+	result := inst.open.Eval(grammar, charstream, flagLeadingSpaces)
 	if result.Node != nil {
 		node.ChildNodes = append(node.ChildNodes, result.Node) // the 1st child of block node is always open node
-		charsUsed = append(charsUsed, result.CharsRead[:result.countCharsUsed()]...)
-		charsUnused = result.CharsUnused
+		updateCharsRead(result)
+		countUsed = result.countCharsUsed()
 		node.Position = result.Node.Position
 	} else {
 		evalResult.Error = result.Error
@@ -95,87 +103,57 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 		Sticky:   true,
 	}
 	node.ChildNodes = append(node.ChildNodes, content)
-	cs = newCharstreamPrepend(cs, charsUnused)
-	content.Position = cs.Position()
-	var closeResult *EvalResult
-	var escapeChars []rune
+	content.Position = charsUnused().Position()
 	for {
 		// check if we have an escape as next match
 		escaped := false
-		escapeChars = nil
+		var escapeChars []rune
 		if inst.escape != nil { // evaluation escape
-			result = inst.escape.Eval(grammar, cs, NOT_SKIP) // do not skip space chars
+			result = inst.escape.Eval(grammar, charsUnused(), NOT_SKIP) // do not skip space chars
+			updateCharsRead(result)
 			if result.Node != nil {
-				charsUsed = append(charsUsed, result.CharsRead[:result.countCharsUsed()]...)
-				charsUnused = result.CharsUnused
 				escaped = true
 				escapeChars = result.charsUsed() // save the escapeChars so we can decide later whether to include them in the result content
-				// content.Chars = append(content.Chars, result.charsUsed()...) // the escape char should NOT be preserved
-				// check if there is an escape token after escape token
-				/**
-				cs = newCharstreamPrepend(cs, charsUnused)
-				result = inst.escape.Eval(grammar, cs, NOT_SKIP) // do not skip space chars
-				if result.Node != nil {
-					// see an escape token after an escape token
-					charsUsed = append(charsUsed, result.CharsRead[:result.countCharsUsed()]...)
-					charsUnused = result.CharsUnused
-					content.Chars = append(content.Chars, result.charsUsed()...)
-					continue
-				} else {
-					escaped = true
-					charsUnused = result.CharsRead
-				}
-				*/
-			} else {
-				charsUnused = result.CharsRead
+				countUsed = countUsed + len(escapeChars)
 			}
 		}
 
 		// find exclude match(es)
-		cs = newCharstreamPrepend(cs, charsUnused)
 		if len(inst.excludes) > 0 {
-			resultExclude := mostGreedy(grammar, cs, NOT_SKIP, inst.excludes)
+			resultExclude := mostGreedy(grammar, charsUnused(), NOT_SKIP, inst.excludes)
+			updateCharsRead(resultExclude)
 			if resultExclude.Node != nil { // found one
 				if escaped {
-					charsUsed = append(charsUsed, resultExclude.charsUsed()...)
-					charsUnused = resultExclude.CharsUnused
+					countUsed = countUsed + resultExclude.countCharsUsed()
 					content.Chars = append(content.Chars, resultExclude.charsUsed()...)
 					continue
 				}
 				evalResult.Error = fmt.Errorf("text `%s` is not allowed in text block", string(resultExclude.charsUsed()))
 				evalResult.ErrIdx = charstream.Cursor()
-				evalResult.CharsRead = append(charsUsed, content.Chars...)
-				evalResult.CharsRead = append(evalResult.CharsRead, resultExclude.CharsRead...)
-				evalResult.CharsUnused = evalResult.CharsRead
-				return evalResult
+				break
 			}
-			charsUnused = resultExclude.CharsRead
 		}
 
 		// check close rule
-		cs = newCharstreamPrepend(cs, charsUnused)
-		result := inst.close.Eval(grammar, cs, NOT_SKIP) // do not skip space
-		charsUnused = result.CharsUnused
+		result := inst.close.Eval(grammar, charsUnused(), NOT_SKIP) // do not skip space
+		updateCharsRead(result)
 		if result.Node != nil {
 			if escaped {
-				charsUsed = append(charsUsed, result.charsUsed()...)
+				countUsed = countUsed + result.countCharsUsed()
 				content.Chars = append(content.Chars, result.charsUsed()...)
 				continue
 			}
-			closeResult = result
 			if !inst.virtualClose {
 				node.ChildNodes = append(node.ChildNodes, result.Node) // the 3rd child of block node is always close node
+				countUsed = countUsed + result.countCharsUsed()
 			}
-			charsUsed = append(charsUsed, content.Chars...)
-			charsUsed = append(charsUsed, result.CharsRead[:result.countCharsUsed()]...)
 			break
 		} else {
 			content.Chars = append(content.Chars, escapeChars...)
 		}
-		cs = newCharstreamPrepend(cs, charsUnused)
+		cs := charsUnused()
 		char := cs.Peek()
 		if char == EOFChar {
-			charsUsed = append(charsUsed, content.Chars...)
 			evalResult.Error = fmt.Errorf("missing %s at EOF", inst.close.desc())
 			evalResult.ErrIdx = charstream.Cursor()
 			break
@@ -183,17 +161,15 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 		char = cs.Next()
 		content.Chars = append(content.Chars, escapeChars...)
 		content.Chars = append(content.Chars, char)
-		charsUnused = nil
+		if countUsed == len(evalResult.CharsRead) {
+			evalResult.CharsRead = append(evalResult.CharsRead, char)
+		}
+		countUsed++
 	}
-	evalResult.CharsRead = append(charsUsed, charsUnused...)
 	if evalResult.Error != nil {
 		evalResult.CharsUnused = evalResult.CharsRead
 	} else {
-		if inst.virtualClose {
-			evalResult.CharsUnused = closeResult.CharsRead
-		} else {
-			evalResult.CharsUnused = charsUnused
-		}
+		evalResult.CharsUnused = evalResult.CharsRead[countUsed:]
 		evalResult.Node = node
 	}
 
-- 
2.43.0


From e440afcef0e69d2113dd07c966cbd072a708bdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 13/45] fix: repetition of a rule that matches no char never
 ends

---
 rule_repetition.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rule_repetition.go b/rule_repetition.go
index d53b46b..54ce5bd 100644
--- a/rule_repetition.go
+++ b/rule_repetition.go
@@ -82,6 +82,11 @@ func (inst *RepetitionRule) Eval(grammar *Grammar, charstream ICharstream, flagL
 			break
 		}
 
+		if result.countCharsUsed() == 0 && len(nodes) >= int(inst.min) {
+			// the rule matches without using any char, so it will match the same way forever
+			break
+		}
+
 		if node.Position == nil {
 			node.Position = result.Node.Position
 		}
-- 
2.43.0


From b89adc099ff58b962b8760e3e13711324706a644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 14/45] fix: block with an escape rule that matches no char
 never ends

---
 rule_block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_block.go b/rule_block.go
index 6144ecd..f08911f 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -111,7 +111,7 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 		if inst.escape != nil { // evaluation escape
 			result = inst.escape.Eval(grammar, charsUnused(), NOT_SKIP) // do not skip space chars
 			updateCharsRead(result)
-			if result.Node != nil {
+			if result.Node != nil && result.countCharsUsed() > 0 { // an escape rule matches nothing escapes nothing
 				escaped = true
 				escapeChars = result.charsUsed() // save the escapeChars so we can decide later whether to include them in the result content
 				countUsed = countUsed + len(escapeChars)
-- 
2.43.0


From 30f261d76602f38315d1a517e99d7f3bbe2b3482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 15/45] fix: Eval never ends when the matched root rule uses no
 char

---
 grammar.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grammar.go b/grammar.go
index 75fbfa7..b2b2a3c 100644
--- a/grammar.go
+++ b/grammar.go
@@ -396,6 +396,10 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 			}
 			charsUnused = maxCharsRead[maxResult.countCharsUsed():]
 		}
+		if len(charsUnused) == len(maxCharsRead) {
+			// no char is used, so the same rule will match the same way forever
+			return nil, fmt.Errorf("must be %s: %s matches no char", inst.desc(), ast.Nodes[len(ast.Nodes)-1].RuleName)
+		}
 	}
 	if len(ast.Nodes) == 0 {
 		return nil, fmt.Errorf("no AST node found")
-- 
2.43.0


From 4020653ca06b4f997cad640e26230c66324958aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 16/45] fix: EvalEmbed never ends when the rule matches no char

---
 grammar.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar.go b/grammar.go
index b2b2a3c..47d48c9 100644
--- a/grammar.go
+++ b/grammar.go
@@ -261,7 +261,7 @@ func (inst *Grammar) EvalEmbed(ruleName string, sample string) *EvalResult {
 	for {
 		result = rule.Eval(inst, cs, NOT_SKIP)
 		cs = newCharstreamPrepend(cs, result.CharsUnused)
-		if result.Node == nil { // no match
+		if result.Node == nil || result.countCharsUsed() == 0 { // no match, or match nothing
 			char := cs.Next()
 			if char == EOFChar {
 				if len(text) > 0 {
-- 
2.43.0


From 1a2f827caa2d49a38bf9f9de6962b05480ad2a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 17/45] fix: String of a repetition with the same min and max
 drops the max

---
 rule_repetition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_repetition.go b/rule_repetition.go
index 54ce5bd..371c8f4 100644
--- a/rule_repetition.go
+++ b/rule_repetition.go
@@ -253,7 +253,7 @@ func (inst *RepetitionRule) StringWithIndent(indent string) string {
 func (inst *RepetitionRule) repetitionSpecString(buf *strings.Builder) {
 	if inst.min == inst.max {
 		if inst.min != 0 {
-			buf.WriteString(fmt.Sprintf("<%d>", inst.min))
+			buf.WriteString(fmt.Sprintf("<%d,%d>", inst.min, inst.max)) // without max it means unlimited
 		}
 	} else {
 		if inst.max == 0 {
-- 
2.43.0


From 3a5ab443f5c590268be588632f45e21e807014f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 18/45] fix: String of terminal rules is not a valid definition
 of the rule when the text needs escaping

---
 rule.go                 | 21 +++++++++++++++++++++
 rule_terminal_char.go   |  8 +-------
 rule_terminal_chars.go  |  7 +------
 rule_terminal_range.go  | 16 ++++------------
 rule_terminal_string.go |  3 +--
 5 files changed, 28 insertions(+), 27 deletions(-)

diff --git a/rule.go b/rule.go
index 1bae585..c1589c0 100644
--- a/rule.go
+++ b/rule.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"strings"
 	"sync"
+	"unicode"
 )
 
 const (
@@ -238,6 +239,26 @@ func leadingWhiteSpace(input []rune) []rune {
 	return wspaces
 }
 
+// Given the text of a terminal, returns how it is written in between a pair of quotes in
+// the xbnf rule definition
+func quoteTerminal(text []rune, quote rune) string {
+	var buf strings.Builder
+	buf.WriteRune(quote)
+	for _, char := range text {
+		switch {
+		case char == quote || char == EscapeSymbol:
+			buf.WriteRune(EscapeSymbol)
+			buf.WriteRune(char)
+		case unicode.IsControl(char) || (char >= 0xD800 && char <= 0xDFFF): // not printable
+			buf.WriteString(fmt.Sprintf("\\u%04X", char))
+		default:
+			buf.WriteRune(char)
+		}
+	}
+	buf.WriteRune(quote)
+	return buf.String()
+}
+
 // Given a ruleName as is in the xbnf rule definition, checks if the name
 // is valid. Return err is not. The ruleName may optionally prefixed with
 // an VirtualChar, meaning the rule defined is virtual. The return
diff --git a/rule_terminal_char.go b/rule_terminal_char.go
index 9f182b7..10cc02c 100644
--- a/rule_terminal_char.go
+++ b/rule_terminal_char.go
@@ -79,13 +79,7 @@ func (inst *TerminalCharRule) String() string {
 	if inst.definedAsUnicode {
 		return fmt.Sprintf("%s\\u%04X", annotations, inst.text)
 	}
-	if inst.text == '\\' {
-		return annotations + "'\\\\'" // output double back-slash \\
-	}
-	if inst.text == '\'' {
-		return annotations + "'\\''"
-	}
-	return annotations + "'" + string(inst.text) + "'"
+	return annotations + quoteTerminal([]rune{inst.text}, CharsSymbol)
 }
 
 func (inst *TerminalCharRule) StringWithIndent(indent string) string {
diff --git a/rule_terminal_chars.go b/rule_terminal_chars.go
index 18b95a3..0b6106f 100644
--- a/rule_terminal_chars.go
+++ b/rule_terminal_chars.go
@@ -2,7 +2,6 @@ package xbnf
 
 import (
 	"fmt"
-	"strings"
 )
 
 type TerminalCharsRule struct {
@@ -82,11 +81,7 @@ func (inst *TerminalCharsRule) Eval(grammar *Grammar, charstream ICharstream, fl
 // Returns the rule definition string in xbnf format
 func (inst *TerminalCharsRule) String() string {
 	annotations := string(inst.annotation())
-	str := string(inst.text)
-	if strings.ContainsRune(str, '\'') {
-		str = strings.ReplaceAll(str, "'", "\\'")
-	}
-	return fmt.Sprintf("%s'%s'", annotations, str)
+	return annotations + quoteTerminal(inst.text, CharsSymbol)
 }
 
 func (inst *TerminalCharsRule) StringWithIndent(indent string) string {
diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index 5891918..d74dbe4 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -77,22 +77,14 @@ func (inst *TerminalRangeRule) String() string {
 	beginStr := ""
 	endStr := ""
 	if inst.beginAsUnicode {
-		beginStr = fmt.Sprintf("%s\\u%04X", annotations, inst.begin)
+		beginStr = fmt.Sprintf("\\u%04X", inst.begin)
 	} else {
-		if inst.begin == '\'' {
-			beginStr = "'\\''"
-		} else {
-			beginStr = "'" + string(inst.begin) + "'"
-		}
+		beginStr = quoteTerminal([]rune{inst.begin}, CharsSymbol)
 	}
 	if inst.endAsUnicode {
-		endStr = fmt.Sprintf("%s\\u%04X", annotations, inst.end)
+		endStr = fmt.Sprintf("\\u%04X", inst.end)
 	} else {
-		if inst.end == '\'' {
-			endStr = "'\\''"
-		} else {
-			endStr = "'" + string(inst.end) + "'"
-		}
+		endStr = quoteTerminal([]rune{inst.end}, CharsSymbol)
 	}
 
 	return fmt.Sprintf("%s%s%s%s", annotations, beginStr, string(CharRangeSymbol), endStr)
diff --git a/rule_terminal_string.go b/rule_terminal_string.go
index c77b762..5ca981d 100644
--- a/rule_terminal_string.go
+++ b/rule_terminal_string.go
@@ -87,8 +87,7 @@ func (inst *TerminalStringRule) Eval(grammar *Grammar, charstream ICharstream, f
 
 // Returns the rule definition string in xbnf format
 func (inst *TerminalStringRule) String() string {
-	str := string(inst.text)
-	return fmt.Sprintf("%s\"%s\"", string(inst.annotation()), str)
+	return string(inst.annotation()) + quoteTerminal(inst.text, '"')
 }
 
 func (inst *TerminalStringRule) StringWithIndent(indent string) string {
-- 
2.43.0


From 52e9c72b072d7a7e7896f32fba70b75f53691d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:21 +0000
Subject: [PATCH 19/45] fix: end char of a range can not be an escaped quote or
 back-slash

---
 rule_terminal_range.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index d74dbe4..102214e 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -113,8 +113,8 @@ func inRange(cs ICharstream, beginChar rune, beginAsUnicode bool) (IRule, error)
 				}
 				endChar = unicode
 				endAsUnicode = true
-			} else {
-				return nil, fmt.Errorf("char range: end char missing unicode escape \\u")
+			} else { // a bare \ just escape the next char from participate in boundary check
+				endChar = cs.Next()
 			}
 		}
 		char = cs.Next() // expecting a closing "'"
-- 
2.43.0


From 65310a7b3c6711b02c90c885f9787a4be6288b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 20/45] fix: whitespace other than space before a choice
 operator nests the choice

---
 rule_choice.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rule_choice.go b/rule_choice.go
index 4fe4bce..f5c358a 100644
--- a/rule_choice.go
+++ b/rule_choice.go
@@ -129,10 +129,11 @@ func inChoice(grammar *Grammar, name string, firstRule IRule, cs ICharstream) (*
 EXIT:
 	for {
 		char := cs.Peek()
-		switch char {
-		case ' ': // ignore space
+		if IsWhiteSpace(char) { // ignore space
 			cs.Next()
 			continue
+		}
+		switch char {
 		case ChoiceSymbol:
 			cs.Next()
 			rule, err := grammar.parseOne(name, cs)
-- 
2.43.0


From 706cbfc36b41d73d3844fa915209f55295258329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 21/45] fix: Validate keeps the root and terminal rules of the
 previous validation

---
 grammar.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grammar.go b/grammar.go
index 47d48c9..92ee8de 100644
--- a/grammar.go
+++ b/grammar.go
@@ -224,6 +224,9 @@ func (inst *Grammar) Validate() error {
 			nonTerminals[child] = 0
 		}
 	}
+	// rules may be added after last validation, a root/terminal rule then may not be a root/terminal rule now
+	inst.terminals = make(map[string]*RuleRecord)
+	inst.rootRules = make(map[string]*RuleRecord)
 	for name, record := range inst.ruleRecords {
 		_, exists := nonTerminals[name]
 		if exists {
-- 
2.43.0


From 36e72527a0479c2cbb6e43bf2c748169bd1729ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:45 +0000
Subject: [PATCH 22/45] fix: references of a rejected rule definition stay in
 the grammar

---
 grammar.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/grammar.go b/grammar.go
index 92ee8de..4836b78 100644
--- a/grammar.go
+++ b/grammar.go
@@ -113,6 +113,7 @@ func (inst *Grammar) ParseRule(name string, ruleStr string) (IRule, error) {
 	}
 	r, err := inst.parse(ruleName, cs, []rune{EOFChar})
 	if err != nil {
+		inst.removeUsages(ruleName) // the rule isn't defined, so it can't use any other rule
 		return nil, err
 	}
 	rule = r
@@ -211,6 +212,23 @@ func (inst *Grammar) AddUsage(ruleName string, userRule string) {
 	inst.nonRoots[ruleName] = append(inst.nonRoots[ruleName], userRule)
 }
 
+// remove all usages by a user rule
+func (inst *Grammar) removeUsages(userRule string) {
+	for ruleName, users := range inst.nonRoots {
+		var others []string
+		for _, user := range users {
+			if user != userRule {
+				others = append(others, user)
+			}
+		}
+		if len(others) > 0 {
+			inst.nonRoots[ruleName] = others
+		} else {
+			delete(inst.nonRoots, ruleName)
+		}
+	}
+}
+
 func (inst *Grammar) Validate() error {
 	//inst.lock.Lock()
 	//defer inst.lock.Unlock()
-- 
2.43.0


From a60cfebbc8724fb03a7795b17fe6b0678678d5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 23/45] fix: command line with -rule but without -xbnf always
 fails

---
 main/xbnf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main/xbnf.go b/main/xbnf.go
index 6905d5f..d54a750 100644
--- a/main/xbnf.go
+++ b/main/xbnf.go
@@ -34,7 +34,7 @@ func main() {
 		fmt.Printf("ERROR: Command line arguments must contains at least one of -xbnf or -rule\n")
 		printHelp()
 		return
-	} else {
+	} else if ruleFile != nil && *ruleFile != "" {
 		fmt.Printf("Adding rule(s) from XBNF file: %s\n", *ruleFile)
 		g, err := xbnf.NewGrammarFromFile(*ruleFile)
 		if err != nil {
-- 
2.43.0


From 29d95567b44bea3bcb7e6fc685ae5d7b738b45f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 24/45] fix: RemoveRedundantNodes changes the text of block
 nodes

---
 node.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/node.go b/node.go
index 6ecb557..8d28944 100644
--- a/node.go
+++ b/node.go
@@ -220,7 +220,7 @@ func (inst *Node) RemoveRedundantNodes() {
 		if len(onlyChild.Chars) > 0 { // leaf node
 			inst.Chars = onlyChild.Chars
 			inst.ChildNodes = nil
-		} else { // intermediate node that can be dropped after all its children promoted
+		} else if inst.canPromote(onlyChild) { // intermediate node that can be dropped after all its children promoted
 			inst.ChildNodes = onlyChild.ChildNodes
 		}
 	}
@@ -234,7 +234,7 @@ func (inst *Node) RemoveRedundantNodes() {
 			continue
 		}
 
-		if child.RuleName == "" && len(child.ChildNodes) > 0 {
+		if child.RuleName == "" && len(child.ChildNodes) > 0 && inst.canPromote(child) {
 			children = append(children, child.ChildNodes...)
 		} else {
 			children = append(children, child) // this child is leaf node
@@ -249,6 +249,13 @@ func (inst *Node) RemoveRedundantNodes() {
 	}
 }
 
+// canPromote checks if the children of a child node can become the children of this node. It's not the case
+// for a block node. The text of its open/content/close nodes are together, with no space(s) in between, it's not
+// the same text any more when they are mixed with other nodes
+func (inst *Node) canPromote(child *Node) bool {
+	return inst.RuleType != TypeBlock && child.RuleType != TypeBlock
+}
+
 // The input config must not be nil, or this call will panic
 func (inst *Node) header(config *NodeTreeConfig) string {
 	var buf strings.Builder
-- 
2.43.0


From c341990321f5ffd76cf4e5711c15279c54244e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 25/45] fix: text of a node changes after merging when there is
 an empty child node

---
 node.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/node.go b/node.go
index 8d28944..b363f61 100644
--- a/node.go
+++ b/node.go
@@ -328,19 +328,23 @@ func (inst *Node) Text() []rune {
 		return inst.Chars
 	}
 	var text []rune
-	var prevNode *Node
+	prevSticky := true
 	var prevText []rune
 	for _, node := range inst.ChildNodes {
 		nodeText := node.Text()
 		if inst.RuleType != TypeBlock && // for block node, we don't want to insert a space between its open/content/close nodes
 			len(prevText) > 0 && !IsWhiteSpace(prevText[len(prevText)-1]) && // if the proceeding char is a whitespace, we don't need to add a space
 			len(nodeText) > 0 && !IsWhiteSpace(nodeText[0]) && // if the 1st char is a white space, we don't need to add a space
-			(!prevNode.Sticky || !node.Sticky) {
+			(!prevSticky || !node.Sticky) {
 			text = append(text, ' ')
 		}
 		text = append(text, nodeText...)
 		prevText = text
-		prevNode = node
+		if len(nodeText) > 0 {
+			prevSticky = node.Sticky
+		} else { // an empty node doesn't make its neighbors stick together, same as MergeStickyNodes
+			prevSticky = prevSticky && node.Sticky
+		}
 	}
 	return text
 }
-- 
2.43.0


From 6c3626c975edebcc516e621433e002f41aa0e739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:43 +0000
Subject: [PATCH 26/45] fix: node of a group rule has no position

---
 rule_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_group.go b/rule_group.go
index a6405f2..e4cdecc 100644
--- a/rule_group.go
+++ b/rule_group.go
@@ -32,8 +32,8 @@ func (inst *GroupRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 	}
 	node.Sticky = evalResult.Sticky
 	node.ChildNodes = append(node.ChildNodes, evalResult.Node)
-	evalResult.Node = node
 	node.Position = evalResult.Node.Position
+	evalResult.Node = node
 	return evalResult
 }
 
-- 
2.43.0


From 66ceb4903ed299132df9e87869f90c7ad146e0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 27/45] fix: node merged into an empty node has no position

---
 node.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/node.go b/node.go
index b363f61..ab28ef9 100644
--- a/node.go
+++ b/node.go
@@ -158,6 +158,9 @@ func MergeStickyNodes(nodes []*Node) []*Node {
 			if prevNode != nil && prevNode.Sticky {
 				// previous node is steaky, node and prevNode can be merge
 				prevNode.Chars = append(prevNode.Chars, nodeText...)
+				if prevNode.Position == nil { // an empty node, such as an option not matched
+					prevNode.Position = node.Position
+				}
 				continue
 			}
 			// all children of a sticky node can be drop, we only need to keep the text
-- 
2.43.0


From 54aff975819b96268b6d447d5dda76d81f4c9813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 28/45] fix: EvalEmbed takes forever on a long text, every
 unused char adds a layer to the stream

---
 grammar.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/grammar.go b/grammar.go
index 4836b78..45d78cf 100644
--- a/grammar.go
+++ b/grammar.go
@@ -279,11 +279,15 @@ func (inst *Grammar) EvalEmbed(ruleName string, sample string) *EvalResult {
 	cs := NewCharstreamFromString(sample)
 	var result *EvalResult
 	var text []rune
+	var charsUnused []rune // chars read from cs but not used yet
 	for {
-		result = rule.Eval(inst, cs, NOT_SKIP)
-		cs = newCharstreamPrepend(cs, result.CharsUnused)
+		result = rule.Eval(inst, newCharstreamPrepend(cs, charsUnused), NOT_SKIP)
+		if len(result.CharsRead) > len(charsUnused) {
+			charsUnused = result.CharsRead
+		}
+		charsUnused = charsUnused[result.countCharsUsed():]
 		if result.Node == nil || result.countCharsUsed() == 0 { // no match, or match nothing
-			char := cs.Next()
+			char := newCharstreamPrepend(cs, charsUnused).Next()
 			if char == EOFChar {
 				if len(text) > 0 {
 					textNode := &Node{RuleType: TypeText, RuleName: "_"}
@@ -293,6 +297,9 @@ func (inst *Grammar) EvalEmbed(ruleName string, sample string) *EvalResult {
 				}
 				break
 			}
+			if len(charsUnused) > 0 { // it's the char just taken
+				charsUnused = charsUnused[1:]
+			}
 			text = append(text, char)
 		} else { // find a match
 			if len(text) > 0 {
-- 
2.43.0


From 398d13114ef78e942d2ed191bd895e3f8fe99607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 29/45] fix: arithmetic sample reads two numbers on two lines
 as one float

---
 main/samples/arithmetic/arithmetic.xbnf | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main/samples/arithmetic/arithmetic.xbnf b/main/samples/arithmetic/arithmetic.xbnf
index 39c9a19..ea08955 100644
--- a/main/samples/arithmetic/arithmetic.xbnf
+++ b/main/samples/arithmetic/arithmetic.xbnf
@@ -12,7 +12,7 @@ integer_dec = [ '-' ] digit_dec { digit_dec }
 integer_hex = '0x' digit_hex { digit_hex }
 integer_oct = '0o' digit_oct { digit_oct }
 integer_bin = '0b' digit_bin { digit_bin }
-float       = [ '-' ] { digit_dec } '.' digit_dec { digit_dec }
+float       = [ '-' ] [ digit_dec { digit_dec } ] '.' digit_dec { digit_dec }
 digit_dec           = '0'-'9'
 digit_hex           = '0'-'9' | 'A'-'F' | 'a'-'f'
 digit_oct           = '0'-'7'
-- 
2.43.0


From f47d531763e5f9971cafb6bb53008d572bd2ab6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 30/45] fix: RemoveRedundantNodes drops named nodes without
 text

---
 node.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/node.go b/node.go
index ab28ef9..2aa0cd3 100644
--- a/node.go
+++ b/node.go
@@ -232,8 +232,9 @@ func (inst *Node) RemoveRedundantNodes() {
 	// if a child does not have ruleName, and it's not leaf node (ie, has child nodes), premote
 	// its children to this node's children. ie. grandchildren becomes children
 	for _, child := range inst.ChildNodes { // range over slice in golang is order guaranteed
-		// remove the child if it is empty and unnamed after virtual node removed
-		if len(child.Text()) == 0 && child.RuleName == "" {
+		// remove the child if it is empty and unnamed after virtual node removed. A child that still has child
+		// nodes has named one(s), such as an empty string, even when there is no text
+		if len(child.ChildNodes) == 0 && len(child.Text()) == 0 && child.RuleName == "" {
 			continue
 		}
 
-- 
2.43.0


From 2f4f2cc027e1703fcfb809fdbbcf879c63abb8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 31/45] fix: an annotation with a space before a choice
 operator makes an annotated choice

---
 grammar.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grammar.go b/grammar.go
index 45d78cf..b2ed79f 100644
--- a/grammar.go
+++ b/grammar.go
@@ -509,6 +509,10 @@ EXIT:
 			isVirtual = false
 			rules = append(rules, rule)
 		case ChoiceSymbol, ChoiceOrderSymbol: // '|' or '>'
+			// rule annotations can not appear before the choice symbols, not even with spaces in between
+			if isVirtual || isNonData || isTokenized {
+				return nil, fmt.Errorf("annotation symbol can not appear before choice symbol '%c'", char)
+			}
 			size := len(rules)
 			switch size {
 			case 0:
-- 
2.43.0


From 0ccdce00b58e08892ab2b0784084532297ba2faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:57 +0000
Subject: [PATCH 32/45] fix: a choice that fails at the first char of the text
 says why, not %!s(<nil>)

---
 rule_choice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_choice.go b/rule_choice.go
index f5c358a..e456bd9 100644
--- a/rule_choice.go
+++ b/rule_choice.go
@@ -47,7 +47,7 @@ func (inst *ChoiceRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadi
 	var resultsMatched []*EvalResult
 	var resultFound *EvalResult
 	var maxErr error
-	var maxErrCursor int
+	maxErrCursor := -1 // the 1st error may be at index 0
 	//startPos := charstream.Position()
 	for _, group := range inst.groups {
 		resultsMatched = nil
-- 
2.43.0


From 47e1c3236ed0e3a60b84fe90b1b37eebcd0c143c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 33/45] fix: a char range missing after the last spaces of a
 text is missing at EOF, not at L0:0

---
 rule_terminal_range.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index 102214e..cc84e94 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -66,8 +66,12 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 	}
 
 	evalResult.CharsUnused = evalResult.CharsRead
-	evalResult.Error = fmt.Errorf("missing %s at %s", inst.desc(), startPos.String())
 	evalResult.ErrIdx = charstream.Cursor()
+	if char == EOFChar { // there was nothing but spaces, EOF has no position
+		evalResult.Error = fmt.Errorf("missing %s at EOF", inst.desc())
+		return evalResult
+	}
+	evalResult.Error = fmt.Errorf("missing %s at %s", inst.desc(), startPos.String())
 	return evalResult
 }
 
-- 
2.43.0


From 7ce145eb69591b9b3bf87f58f2e3c1e56f117c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:34 +0000
Subject: [PATCH 34/45] fix: the index of an ambiguity or undefined rule error
 is where it occurs, not 0

---
 rule_choice.go    | 1 +
 rule_reference.go | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/rule_choice.go b/rule_choice.go
index e456bd9..8e4d9db 100644
--- a/rule_choice.go
+++ b/rule_choice.go
@@ -101,6 +101,7 @@ func (inst *ChoiceRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadi
 				buf.WriteString(fmt.Sprintf("\t\n%s: %s", resultFound.Node.RuleName, string(resultFound.Node.Text())))
 				buf.WriteString(fmt.Sprintf("\t\n%s: %s", resultTied.Node.RuleName, string(resultTied.Node.Text())))
 				evalResult.Error = errors.New(buf.String())
+				evalResult.ErrIdx = charstream.Cursor()
 				evalResult.CharsUnused = evalResult.CharsRead
 				return evalResult
 			}
diff --git a/rule_reference.go b/rule_reference.go
index a22fc27..b0e3cf8 100644
--- a/rule_reference.go
+++ b/rule_reference.go
@@ -18,7 +18,8 @@ func (inst *ReferenceRule) Eval(grammar *Grammar, charstream ICharstream, flagLe
 	ruleRecord := grammar.GetRecord(inst.refName)
 	if ruleRecord == nil {
 		evalResult := &EvalResult{
-			Error: fmt.Errorf("rule '%s' not defined", inst),
+			Error:  fmt.Errorf("rule '%s' not defined", inst),
+			ErrIdx: charstream.Cursor(),
 		}
 		return evalResult
 	}
-- 
2.43.0


From 0872d31015773a8c158eed885113847ee6ec90b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 35/45] fix: a block in the outline of a rule is indented as
 the parts next to it

---
 rule_block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_block.go b/rule_block.go
index f08911f..7dfef66 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -50,7 +50,7 @@ func (inst *BlockRule) String() string {
 }
 
 func (inst *BlockRule) StringWithIndent(indent string) string {
-	return fmt.Sprintf("%s%s", indent, inst.String())
+	return inst.String() // the container indents its parts, same as those of other rules
 }
 
 // Eval extract quote text from the charstream. If the charstream starts with
-- 
2.43.0


From 747fd952bf1b32cb46cefe637d91abf5c40109e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:54 +0000
Subject: [PATCH 36/45] fix: a repetition below its minimum at the end of the
 text doesn't try a rule that may match nothing

---
 rule_repetition.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rule_repetition.go b/rule_repetition.go
index 371c8f4..4104bc1 100644
--- a/rule_repetition.go
+++ b/rule_repetition.go
@@ -48,7 +48,8 @@ func (inst *RepetitionRule) Eval(grammar *Grammar, charstream ICharstream, flagL
 	for {
 		// all chars read so far are read from charstream, so the unused ones go in front of charstream
 		cs := newCharstreamPrepend(charstream, evalResult.CharsUnused)
-		if cs.Peek() == EOFChar {
+		atEnd := cs.Peek() == EOFChar
+		if atEnd && len(nodes) >= int(inst.min) { // below the min, the rule may match without any char
 			break
 		}
 		result := rule.Eval(grammar, cs, flagLeadingSpaces)
@@ -76,6 +77,9 @@ func (inst *RepetitionRule) Eval(grammar *Grammar, charstream ICharstream, flagL
 		}
 
 		if result.Node == nil {
+			if atEnd {
+				break
+			}
 			// we didn't find a match, should prepare the evalResult and exist
 			evalResult.Error = result.Error
 			evalResult.ErrIdx = charstream.Cursor()
-- 
2.43.0


From 33bf28fe230aed16fb0dc984179437f623723e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:34 +0000
Subject: [PATCH 37/45] fix: spaces other than blank, tab, CR and LF are not
 skipped behind a choice symbol

---
 grammar.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/grammar.go b/grammar.go
index b2ed79f..d179240 100644
--- a/grammar.go
+++ b/grammar.go
@@ -631,10 +631,11 @@ func (inst *Grammar) parseOne(name string, cs ICharstream) (IRule, error) {
 	isTokenized := false
 	for {
 		char := cs.Peek()
-		switch char {
-		case ' ', '\n', '\t', '\r':
+		if IsWhiteSpace(char) { // ignore space
 			cs.Next()
 			continue
+		}
+		switch char {
 		case EOFChar:
 			return nil, fmt.Errorf("EOF encountered, no more rule")
 		case VirtualSymbol, NonDataSymbol, TokenizedSymbol:
-- 
2.43.0


From 86f35b04f12c9626d10be1d861371b58d4bc9a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:39 +0000
Subject: [PATCH 38/45] fix: spaces other than blank, tab and LF are not
 skipped in a repetition specification

---
 rule_repetition.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rule_repetition.go b/rule_repetition.go
index 4104bc1..dcf74e9 100644
--- a/rule_repetition.go
+++ b/rule_repetition.go
@@ -185,9 +185,10 @@ func inRepeatSpec(cs ICharstream) (uint, uint, error) {
 EXIT_MIN:
 	for {
 		char := cs.Next()
-		switch char {
-		case ' ', '\t', '\n':
+		if IsWhiteSpace(char) {
 			continue
+		}
+		switch char {
 		case ',':
 			break EXIT_MIN
 		case '>':
@@ -216,9 +217,10 @@ EXIT_MIN:
 	EXIT_MAX:
 		for {
 			char := cs.Next()
-			switch char {
-			case ' ', '\t', '\n':
+			if IsWhiteSpace(char) {
 				continue
+			}
+			switch char {
 			case '>':
 				break EXIT_MAX
 			default:
-- 
2.43.0


From 2aad5ffe11733a9091ad0af3e1688829030c115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 39/45] fix: only blanks separate the rules of a block, not
 other spaces

---
 rule_block.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rule_block.go b/rule_block.go
index 7dfef66..3d5d722 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -185,8 +185,11 @@ func inBlock(grammar *Grammar, name string, charstream ICharstream) (*BlockRule,
 		return nil, fmt.Errorf("block must start with '%c' char", blockOpenSymbol)
 	}
 
+	// inside block rule, the rules are separated by a space(s)
+	terminators := append([]rune{blockCloseSymbol, blockVirtualClose}, whiteSpaces...)
+
 	// get the first open rule
-	openRule, err := grammar.parse(name, cs, []rune{' ', blockCloseSymbol, blockVirtualClose}) // inside block rule, the rules are separated by a space(s)
+	openRule, err := grammar.parse(name, cs, terminators)
 	if err != nil {
 		return nil, fmt.Errorf("missing block open rule: %s", err)
 	}
@@ -196,7 +199,7 @@ func inBlock(grammar *Grammar, name string, charstream ICharstream) (*BlockRule,
 	cs.SkipSpaces()
 	char := cs.Peek()
 	if char != negationChar { // must be the escape rule or close rule
-		rule, err := grammar.parse(name, cs, []rune{' ', blockCloseSymbol, blockVirtualClose})
+		rule, err := grammar.parse(name, cs, terminators)
 		if err != nil {
 			return nil, err
 		}
@@ -226,7 +229,7 @@ func inBlock(grammar *Grammar, name string, charstream ICharstream) (*BlockRule,
 			break
 		}
 		cs.Next() // skip the negationChar
-		excludeRule, err := grammar.parse(name, cs, []rune{' ', blockCloseSymbol, blockVirtualClose})
+		excludeRule, err := grammar.parse(name, cs, terminators)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 09b77b0bdbd4f3a82dead46aa1cf88e3b172d4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:34 +0000
Subject: [PATCH 40/45] fix: annotation symbols without a rule after them are
 accepted and dropped

---
 grammar.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/grammar.go b/grammar.go
index d179240..b0a346d 100644
--- a/grammar.go
+++ b/grammar.go
@@ -449,8 +449,9 @@ EXIT:
 		if char == EOFChar { // end of file
 			break
 		}
+		annotated := isVirtual || isNonData || isTokenized // a rule must follow
 		for _, terminator := range terminators {
-			if terminator == char {
+			if terminator == char && !annotated {
 				break EXIT
 			}
 		}
@@ -611,6 +612,9 @@ EXIT:
 			}
 		}
 	}
+	if isVirtual || isNonData || isTokenized {
+		return nil, fmt.Errorf("no rule found after annotation symbol")
+	}
 	switch len(rules) {
 	case 0:
 		return nil, fmt.Errorf("no rule found")
-- 
2.43.0


From f605f675ad5d541411467ed9064918a32361299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:16 +0000
Subject: [PATCH 41/45] fix: a comment in a definition of several lines drops
 the lines after it

---
 grammar.go     | 34 ++++++++++++++++++++--------------
 rule_choice.go |  5 +++++
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/grammar.go b/grammar.go
index b0a346d..554e173 100644
--- a/grammar.go
+++ b/grammar.go
@@ -581,21 +581,10 @@ EXIT:
 			isVirtual = false
 			rules = append(rules, rule)
 		case '/': // must be comments
-			var comment []rune
-			comment = append(comment, char)
-			cs.Next()
-			if cs.Next() != '/' {
-				return nil, fmt.Errorf("invalid char '%c'", char)
-			}
-			comment = append(comment, char)
-			for {
-				char = cs.Next()
-				if char == '\n' || char == EOFChar {
-					break
-				}
-				comment = append(comment, char)
+			err := skipComment(cs)
+			if err != nil {
+				return nil, err
 			}
-			break EXIT
 		default:
 			if (char >= 'a' && char <= 'z') || (char >= 'A' && char <= 'Z') || char == '_' {
 				rule, err := inReference(inst, name, cs)
@@ -627,6 +616,18 @@ EXIT:
 	}
 }
 
+// skipComment skips a comment, which ends at the end of the line
+func skipComment(cs ICharstream) error {
+	char := cs.Next()
+	if cs.Next() != '/' {
+		return fmt.Errorf("invalid char '%c'", char)
+	}
+	for char = cs.Peek(); char != '\n' && char != EOFChar; char = cs.Peek() {
+		cs.Next()
+	}
+	return nil
+}
+
 // parseOne get one rule from the stream and return the rule, even if there are
 // more content in the stream
 func (inst *Grammar) parseOne(name string, cs ICharstream) (IRule, error) {
@@ -642,6 +643,11 @@ func (inst *Grammar) parseOne(name string, cs ICharstream) (IRule, error) {
 		switch char {
 		case EOFChar:
 			return nil, fmt.Errorf("EOF encountered, no more rule")
+		case '/': // must be comments
+			err := skipComment(cs)
+			if err != nil {
+				return nil, err
+			}
 		case VirtualSymbol, NonDataSymbol, TokenizedSymbol:
 			switch char {
 			case VirtualSymbol:
diff --git a/rule_choice.go b/rule_choice.go
index 8e4d9db..bbef66b 100644
--- a/rule_choice.go
+++ b/rule_choice.go
@@ -154,6 +154,11 @@ EXIT:
 				return nil, err
 			}
 			rules = append(rules, rule)
+		case '/': // must be comments
+			err := skipComment(cs)
+			if err != nil {
+				return nil, err
+			}
 		default:
 			break EXIT
 		}
-- 
2.43.0


From 6efb8128d323fdd90d1ea69d580b0efc55bc20c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:42 +0000
Subject: [PATCH 42/45] fix: an unescaped quote in quotes is accepted as the
 end of a char range

---
 rule_terminal_range.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index cc84e94..c415044 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -120,6 +120,8 @@ func inRange(cs ICharstream, beginChar rune, beginAsUnicode bool) (IRule, error)
 			} else { // a bare \ just escape the next char from participate in boundary check
 				endChar = cs.Next()
 			}
+		} else if endChar == CharsSymbol {
+			return nil, fmt.Errorf("char range must be 2 chars connected by a range symbol '-': no 2nd char")
 		}
 		char = cs.Next() // expecting a closing "'"
 		if char != CharsSymbol {
-- 
2.43.0


From 9500517f5af6fb1d81fd17b78fce4c050509e685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:18 +0000
Subject: [PATCH 43/45] fix: String of a block whose parts are several rules
 without a group isn't a definition of the same block

---
 rule_block.go | 47 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/rule_block.go b/rule_block.go
index 3d5d722..02fa12d 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -27,20 +27,24 @@ func (inst *BlockRule) String() string {
 	var buf strings.Builder
 	buf.WriteString(string(inst.annotation()))
 	buf.WriteRune(blockOpenSymbol)
-	buf.WriteString(inst.open.String())
+	buf.WriteString(blockPartString(inst.open))
 
 	if inst.escape != nil {
 		buf.WriteRune(' ')
-		buf.WriteString(inst.escape.String())
+		buf.WriteString(blockPartString(inst.escape))
 	}
 
 	for _, exclude := range inst.excludes {
 		buf.WriteString(" ^")
-		buf.WriteString(exclude.String())
+		buf.WriteString(blockPartString(exclude))
 	}
 
 	buf.WriteRune(' ')
-	buf.WriteString(inst.close.String())
+	if inst.escape != nil || len(inst.excludes) > 0 {
+		buf.WriteString(inst.close.String()) // no space ends the close rule then
+	} else {
+		buf.WriteString(blockPartString(inst.close))
+	}
 	if inst.virtualClose {
 		buf.WriteRune(' ')
 		buf.WriteRune(blockVirtualClose)
@@ -49,6 +53,41 @@ func (inst *BlockRule) String() string {
 	return buf.String()
 }
 
+// blockPartString returns the definition of a part of a block. A space ends the part, so if it's a
+// concatenate or choice rule without a group around, its rules are written without space in between.
+func blockPartString(part IRule) string {
+	var buf strings.Builder
+	switch inst := part.(type) {
+	case *ConcatenateRule:
+		for _, rule := range inst.rules {
+			buf.WriteString(blockPartString(rule))
+			switch rule := rule.(type) {
+			case *ChoiceRule:
+				buf.WriteRune(' ') // it doesn't end the part, inChoice looks for more choices behind it
+			case *RepetitionRule:
+				if rule.min == 0 && rule.max == 0 {
+					buf.WriteRune('*') // a '<' may follow
+				}
+			}
+		}
+	case *ChoiceRule:
+		for i, group := range inst.groups {
+			if i > 0 {
+				buf.WriteRune(ChoiceOrderSymbol)
+			}
+			for j, rule := range group {
+				if j > 0 {
+					buf.WriteRune(ChoiceSymbol)
+				}
+				buf.WriteString(rule.String())
+			}
+		}
+	default:
+		return part.String()
+	}
+	return buf.String()
+}
+
 func (inst *BlockRule) StringWithIndent(indent string) string {
 	return inst.String() // the container indents its parts, same as those of other rules
 }
-- 
2.43.0


From fccc0510cb429099dfe8ecbd18e8770ba1efd49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:49 +0000
Subject: [PATCH 44/45] fix: the xbnf tool goes on to parse texts by a grammar
 that references an undefined rule

---
 main/xbnf.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main/xbnf.go b/main/xbnf.go
index d54a750..aae471b 100644
--- a/main/xbnf.go
+++ b/main/xbnf.go
@@ -60,6 +60,7 @@ func main() {
 	err := grammar.Validate()
 	if err != nil {
 		fmt.Printf("ERROR: %s\n", err)
+		return
 	}
 	grammarStr := grammar.Serialize(false)
 	grammarStr = strings.ReplaceAll(grammarStr, "\n", "\n    ")
-- 
2.43.0


From f5f0a36eeba1dc46492ba1b7f4932d11aaf87e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:45 +0000
Subject: [PATCH 45/45] fix: appending to the spaces skipped on a stream
 overwrites the chars to be read next

---
 charstream.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/charstream.go b/charstream.go
index e949e57..669ab84 100644
--- a/charstream.go
+++ b/charstream.go
@@ -359,7 +359,8 @@ func (inst *CharstreamString) SkipSpaces() []rune {
 	}
 
 	if inst.cursor > beginCur {
-		spaces := inst.chars[beginCur:inst.cursor]
+		// no capacity beyond, or a caller that appends to it would overwrite the chars to be read next
+		spaces := inst.chars[beginCur:inst.cursor:inst.cursor]
 		inst.positionMap.update(beginCur, spaces...)
 		return spaces
 	}
-- 
2.43.0

