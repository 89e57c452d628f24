From 7fc0b331dde236079d685b1b02ab47d7823930da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:20 +0000
Subject: [PATCH 01/24] fix: define runesio.AsRunesWriter, which linebreak and
 the attributes tests need to build

---
 terminal/runes/runesio/writer.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/terminal/runes/runesio/writer.go b/terminal/runes/runesio/writer.go
index d44ac3a..2f5bb6b 100644
--- a/terminal/runes/runesio/writer.go
+++ b/terminal/runes/runesio/writer.go
@@ -27,6 +27,17 @@ func NewWriter(w io.Writer) Writer {
 	}
 }
 
+// AsRunesWriter yields a runes Writer from an io.Writer.
+//
+// If the provided writer already knows how to write runes, it is returned unchanged.
+func AsRunesWriter(w io.Writer) Writer {
+	if rw, ok := w.(Writer); ok {
+		return rw
+	}
+
+	return NewWriter(w)
+}
+
 func (rw *runesWriter) WriteRune(r rune) (int, error) {
 	return rw.writeRune(r)
 }
-- 
2.43.0


From 1494a2ca6426cf20c4cf4175f85b0e8120c6fb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:47 +0000
Subject: [PATCH 02/24] fix: runes.Widths agrees with Width on invalid runes
 and on the three-em dash

Widths indexed the lookup table with runes out of the unicode range (panic),
and reported a width of 0 for U+2E3B, which overflows a lookup table entry.
---
 terminal/runes/width.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/terminal/runes/width.go b/terminal/runes/width.go
index 9d1632d..ff77e6b 100644
--- a/terminal/runes/width.go
+++ b/terminal/runes/width.go
@@ -14,14 +14,6 @@ import (
 //   - East-Asian characters are displayed as: https://www.unicode.org/reports/tr11
 //   - Emojis are displayed as: https://www.unicode.org/reports/tr51
 func Width(r rune, opts ...Option) int {
-	if !utf8.ValidRune(r) || r == utf8.RuneError {
-		return 0
-	}
-	if r == 0x2E3B {
-		// special case with code point with a width that overflow our lookup table
-		return 4
-	}
-
 	o := optionsWithDefaults(opts)
 	if o.EastAsian {
 		return runeWidth(r, o)
@@ -29,9 +21,7 @@ func Width(r rune, opts ...Option) int {
 
 	buildLookupOnce.Do(initLookupTable) // builds the cache once
 
-	return int(
-		(lookupTable[r>>2] >> ((r % 4) * 2)) & 3,
-	)
+	return lookupWidth(r)
 }
 
 // Widths return the width of a slice of runes as displayed in fixed-width font.
@@ -50,12 +40,27 @@ func Widths(runes []rune, opts ...Option) (width int) {
 
 	buildLookupOnce.Do(initLookupTable) // builds the cache once
 	for _, r := range runes {
-		width += int((lookupTable[r>>2] >> ((r % 4) * 2)) & 3)
+		width += lookupWidth(r)
 	}
 
 	return width
 }
 
+// lookupWidth returns the width of a rune from the prebuilt lookup table.
+func lookupWidth(r rune) int {
+	if !utf8.ValidRune(r) || r == utf8.RuneError {
+		return 0
+	}
+	if r == 0x2E3B {
+		// special case with code point with a width that overflow our lookup table
+		return 4
+	}
+
+	return int(
+		(lookupTable[r>>2] >> ((r % 4) * 2)) & 3,
+	)
+}
+
 // StringWidth return the width of a string, as displayed in fixed-width font.
 func StringWidth(s string, opts ...Option) (width int) {
 	return Widths([]rune(s), opts...)
-- 
2.43.0


From 799fd5452b17059823417be056c834f009529e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 03/24] fix: decode ANSI escape sequences with 3-digit
 arguments

The rune that follows an argument of exactly 3 digits was not read: sequences
such as ESC[101m or ESC[38;2;255;128;0m were not recognized, and a sequence
truncated after 3 digits made the decoder slice out of range.
---
 terminal/ansi/ansi.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/terminal/ansi/ansi.go b/terminal/ansi/ansi.go
index 33de825..2caef9a 100644
--- a/terminal/ansi/ansi.go
+++ b/terminal/ansi/ansi.go
@@ -239,13 +239,13 @@ func decodeANSISequence(rdr *runesio.SliceReader) ([]rune, kind) {
 	nextStart, _ = rdr.Seek(0, io.SeekCurrent)
 
 	hasZeroArg := true
-	for i := 0; i < maxDigits; i++ {
+	for i := 0; i <= maxDigits; i++ { // up to maxDigits digits, then the rune that follows
 		r, _, err = rdr.ReadRune()
 		if err != nil {
 			break
 		}
 
-		if !unicode.IsDigit(r) {
+		if !unicode.IsDigit(r) || i == maxDigits {
 			break
 		}
 
@@ -261,13 +261,13 @@ func decodeANSISequence(rdr *runesio.SliceReader) ([]rune, kind) {
 		runeCount++
 		nextStart++
 
-		for i := 0; i < maxDigits; i++ {
+		for i := 0; i <= maxDigits; i++ {
 			r, _, err = rdr.ReadRune()
 			if err != nil {
 				break
 			}
 
-			if !unicode.IsDigit(r) {
+			if !unicode.IsDigit(r) || i == maxDigits {
 				break
 			}
 
-- 
2.43.0


From fdbf2978c24d28ec4db390008c1758dc21c1030e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 04/24] fix: an SGR sequence with some non-zero argument is a
 start sequence

Only the first argument was considered: a sequence such as ESC[0;31m, which
sets a color, was reported as a stop sequence.
---
 terminal/ansi/ansi.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/terminal/ansi/ansi.go b/terminal/ansi/ansi.go
index 2caef9a..db72f7c 100644
--- a/terminal/ansi/ansi.go
+++ b/terminal/ansi/ansi.go
@@ -271,6 +271,10 @@ func decodeANSISequence(rdr *runesio.SliceReader) ([]rune, kind) {
 				break
 			}
 
+			if r != '0' {
+				hasZeroArg = false
+			}
+
 			runeCount++
 			nextStart++
 		}
-- 
2.43.0


From 5740bbd9296feb774515e98fb059cc39c2931251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 05/24] fix: detect an ANSI escape sequence that follows a
 stray ESC

The rune after an ESC that did not start a sequence was skipped: when this rune
was the ESC of a sequence, the sequence was left in the text.
---
 terminal/ansi/ansi.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/terminal/ansi/ansi.go b/terminal/ansi/ansi.go
index db72f7c..4e69365 100644
--- a/terminal/ansi/ansi.go
+++ b/terminal/ansi/ansi.go
@@ -332,7 +332,8 @@ func decodeText(rdr *runesio.SliceReader) []rune {
 				return rdr.Slice(int(current), int(current)+runeCount)
 			}
 
-			runeCount++
+			// not the start of an escape sequence: the rune that follows may be, though
+			_, _ = rdr.Seek(-1, io.SeekCurrent)
 		}
 
 		runeCount++
-- 
2.43.0


From b53043b77f5503b451568660eb2236d17cc7db32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 06/24] fix: load the last hyphenation exception of a section
 closed on the same line

In hyph-en-gb.tex, "some-thing}" was loaded as an exception for "something}".
---
 wordbreak/hyphenator/dictionary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wordbreak/hyphenator/dictionary.go b/wordbreak/hyphenator/dictionary.go
index 4312adb..79beb6b 100644
--- a/wordbreak/hyphenator/dictionary.go
+++ b/wordbreak/hyphenator/dictionary.go
@@ -115,7 +115,7 @@ func LoadPatterns(patternfile string) (*Dictionary, error) {
 		case strings.HasPrefix(line, exceptionsSection):
 			// decode the exceptions section
 			for scanner.Scan() {
-				line = scanner.Text()
+				line = strings.TrimSuffix(scanner.Text(), "}") // the section may be closed on its last entry
 				dict.exceptions.Put(dict.readException(line))
 			}
 
-- 
2.43.0


From d0e5f171b47b21d5fcf2c381097ddd4ba7b6b9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 07/24] fix: hyphenation exceptions are not case sensitive

Like patterns: "Present" was broken as "Pre-sent", whereas "present" is an
exception which may not be broken.
---
 wordbreak/hyphenator/hyphenator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wordbreak/hyphenator/hyphenator.go b/wordbreak/hyphenator/hyphenator.go
index d17b20b..9a97efc 100644
--- a/wordbreak/hyphenator/hyphenator.go
+++ b/wordbreak/hyphenator/hyphenator.go
@@ -84,7 +84,12 @@ func (h *Hyphenator) BreakWord(word []rune) [][]rune {
 }
 
 func (h *Hyphenator) isException(word []rune) ([]int, bool) {
-	val := h.exceptions.Get(word)
+	lowered := make([]rune, len(word)) // exceptions are not case sensitive
+	for i, r := range word {
+		lowered[i] = unicode.ToLower(r)
+	}
+
+	val := h.exceptions.Get(lowered)
 	if val != nil {
 		return val.([]int), true
 	}
-- 
2.43.0


From 74512fb74e9235c416eafb34c4e7e59a746eb018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 08/24] fix: hyphenator uses the patterns of the matched
 language for regional tags (e.g. de-AT, fr-FR, es-MX)

---
 wordbreak/hyphenator/languages.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wordbreak/hyphenator/languages.go b/wordbreak/hyphenator/languages.go
index 59e8c74..01d8e48 100644
--- a/wordbreak/hyphenator/languages.go
+++ b/wordbreak/hyphenator/languages.go
@@ -21,9 +21,11 @@ var (
 )
 
 func langToPattern(tag language.Tag) string {
-	matched, _, _ := langMatcher.Match(tag)
+	// the tag resolved by the matcher may carry the region of the input (e.g. "de-u-rg-atzzzz" for "de-AT"):
+	// only the index identifies the supported language.
+	_, matched, _ := langMatcher.Match(tag)
 
-	switch matched {
+	switch supportedLanguages[matched] {
 	case language.BritishEnglish, language.English:
 		return "hyph-en-gb.tex"
 	case language.Spanish, language.EuropeanSpanish, language.LatinAmericanSpanish:
-- 
2.43.0


From 42d67af971facb616cc5fec26b4c8566cecc4c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 09/24] fix: hyphenator drops break points of long words and
 before the last letters

The slot dropped at the end of the positions is only spare when fewer than 30 positions are used,
a break allowed after the last letter was not discarded when another one was allowed before the first,
and the patterns that start at the last letter were not tried.
---
 wordbreak/hyphenator/hyphenator.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/wordbreak/hyphenator/hyphenator.go b/wordbreak/hyphenator/hyphenator.go
index 9a97efc..242b3f5 100644
--- a/wordbreak/hyphenator/hyphenator.go
+++ b/wordbreak/hyphenator/hyphenator.go
@@ -62,21 +62,19 @@ func (h *Hyphenator) BreakWord(word []rune) [][]rune {
 	positions := make([]int, 30) // the resulting hyphenation positions. A reasonable size is preallocated.
 	fragmentBuffer := make([]rune, 0, wordLength+2)
 
-	for i := 0; i < wordLength; i++ { // ".word.", "ord.", "rd.", "d."
+	for i := 0; i <= wordLength; i++ { // ".word.", "word.", "ord.", "rd.", "d."
 		allBreakPoints, hasPatterns = h.isPattern(i, word, fragmentBuffer, allBreakPoints)
 		if hasPatterns {
 			positions = mergeBreakPoints(positions, allBreakPoints, i)
 		}
 	}
 
-	positions = positions[1 : len(positions)-1]
+	positions = positions[1:]
 
 	// ensure provided positions are consistent
 	// ex: [0 1 2 0 0 0 3 0 0 1]
-	switch {
-	case positions[0] > 0: // sometimes hyphen before first letter is "allowed"
-		positions[0] = 0
-	case len(positions) > wordLength && positions[wordLength] > 0:
+	positions[0] = 0 // sometimes hyphen before first letter is "allowed"
+	if len(positions) > wordLength {
 		positions[wordLength] = 0 // sometimes hyphen after last letter is "allowed"
 	}
 
-- 
2.43.0


From 69b1758b6100683ecd723e902b488880d99e1b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 10/24] fix: attributes state closes and restores exactly the
 opened sequences at line ends

StartOfLine re-emitted the start sequences of closed siblings and those of the first renderer before it is rendered,
EndOfLine emitted stop sequences that did not match when sequences are nested, and stray stop sequences
brought the nesting level below zero.
---
 attributes/state.go | 107 ++++++++++++++++++--------------------------
 1 file changed, 44 insertions(+), 63 deletions(-)

diff --git a/attributes/state.go b/attributes/state.go
index 95c3965..82558ad 100644
--- a/attributes/state.go
+++ b/attributes/state.go
@@ -42,7 +42,7 @@ func (s *State) Push(attr Renderer) {
 		attribute := current.Value.(Renderer)
 		currentLevel = attribute.Level()
 		hadStop := attribute.HasStop()
-		if hadStop {
+		if hadStop && currentLevel > 0 { // a stop without any start leaves the level unchanged
 			currentLevel--
 		}
 	}
@@ -97,97 +97,78 @@ func (i *StateIterator) Item() Renderer {
 	return i.current.Value.(Renderer)
 }
 
-func (i *StateIterator) backtrack(level int) *list.Element {
-	if i.current == nil {
+// opened returns the renderers up to the current one with a start sequence that is still open
+// after the current renderer, the outermost first.
+//
+// A stop sequence closes the last opened start sequence.
+func (i *StateIterator) opened() []Renderer {
+	if i.start || i.current == nil {
 		return nil
 	}
 
-	current := i.current
-	/*
+	var closed int
+	result := make([]Renderer, 0, 4)
+
+	for current := i.current; current != nil; current = current.Prev() {
 		attribute := current.Value.(Renderer)
-		currentLevel := attribute.Level()
-	*/
-
-	// backtrack to the first renderer for this level
-	for current != nil {
-		lookback := current.Prev()
-		if lookback == nil {
-			return current
+		if attribute.HasStop() {
+			closed++
 		}
 
-		attribute := lookback.Value.(Renderer)
-		if attribute.Level() < level {
-			return current
+		if !attribute.HasStart() {
+			continue
 		}
 
-		current = lookback
-	}
+		if closed > 0 {
+			closed--
 
-	return nil
-}
+			continue
+		}
 
-// StartOfLine restores the state of attributes to start a new line.
-func (i *StateIterator) StartOfLine(w runesio.Writer) {
-	if i.current == nil {
-		return
+		result = append(result, attribute)
 	}
 
-	// if the end of line was preceded by a stop, go down 1 level
-	attribute := i.current.Value.(Renderer)
-	currentLevel := attribute.Level()
-	if attribute.HasStop() {
-		currentLevel--
-	}
-	// backtrack to the first renderer for this level
-	current := i.backtrack(currentLevel)
-	if current == nil || currentLevel == 0 {
-		return
+	for left, right := 0, len(result)-1; left < right; left, right = left+1, right-1 {
+		result[left], result[right] = result[right], result[left]
 	}
 
-	// starts all rendering sequences for this level
-	for current != nil {
-		attribute := current.Value.(Renderer)
+	return result
+}
 
+// StartOfLine restores the state of attributes to start a new line.
+func (i *StateIterator) StartOfLine(w runesio.Writer) {
+	// restarts all sequences that were interrupted by the end of line
+	for _, attribute := range i.opened() {
 		attribute.Start(w)
-
-		if current == i.current {
-			break
-		}
-
-		current = current.Next()
 	}
 }
 
 // EndOfLine closes the state of attributes to end the line with an empty state.
 func (i *StateIterator) EndOfLine(w runesio.Writer) {
-	if i.current == nil {
+	pending := len(i.opened())
+	if pending == 0 {
 		return
 	}
 
-	// if the end of line was preceded by a stop, go down 1 level
-	attribute := i.current.Value.(Renderer)
-	currentLevel := attribute.Level()
-	if attribute.HasStop() {
-		currentLevel--
-	}
+	// stop all opened sequences, using the stop sequences of the renderers to come
+	var nested int
+	for current := i.current.Next(); current != nil && pending > 0; current = current.Next() {
+		attribute := current.Value.(Renderer)
+		if attribute.HasStart() {
+			nested++
+		}
 
-	// backtrack to the first renderer for this level
-	current := i.backtrack(currentLevel)
-	if current == nil || currentLevel == 0 {
-		return
-	}
+		if !attribute.HasStop() {
+			continue
+		}
 
-	// stop all sequences up to the last renderer at this level
-	for current != nil {
-		attribute := current.Value.(Renderer)
-		level := attribute.Level()
+		if nested > 0 {
+			nested--
 
-		if level < currentLevel {
-			break
+			continue
 		}
 
 		attribute.Stop(w)
-
-		current = current.Next()
+		pending--
 	}
 }
-- 
2.43.0


From 0c5968fee8f79b86fd5f8556e67e1c71a9754232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 11/24] fix: line breaks minimize the total demerits,
 deterministically

Demerits and ratio were never accumulated along the active break points, and candidates were considered in the random
order of a map. Only the natural width of spaces is rendered now that the adjustment ratio is known.
---
 linebreak/knuth_plass.go       | 22 +++++++++++++---------
 linebreak/knuth_plass_types.go | 20 ++++++++++++++------
 linebreak/linebreaker.go       | 11 ++---------
 3 files changed, 29 insertions(+), 24 deletions(-)

diff --git a/linebreak/knuth_plass.go b/linebreak/knuth_plass.go
index 5180c8b..e649d2c 100644
--- a/linebreak/knuth_plass.go
+++ b/linebreak/knuth_plass.go
@@ -185,7 +185,7 @@ func (l *LineBreaker) mainLoop(index int) {
 
 	var (
 		currentLine int // will range over lines starting from 1
-		candidates  map[fitnessClass]*breakPoint
+		candidates  [fitnessClasses]candidateT
 	)
 
 	lowestDemerits := maxDemerit
@@ -210,7 +210,11 @@ func (l *LineBreaker) mainLoop(index int) {
 				lowestDemerits = minf(lowestDemerits, demerits)
 
 				if demerits < candidates[currentClass].totalDemerits {
-					candidates[currentClass] = active
+					candidates[currentClass] = candidateT{
+						active:        active,
+						totalDemerits: demerits,
+						ratio:         ratio,
+					}
 				}
 			}
 
@@ -225,12 +229,12 @@ func (l *LineBreaker) mainLoop(index int) {
 		}
 
 		if lowestDemerits < maxDemerit {
-			l.insertNewActiveBreak(activeElement, index, lowestDemerits, candidates)
+			l.insertNewActiveBreaks(activeElement, index, lowestDemerits, candidates)
 		}
 	}
 }
 
-func (l *LineBreaker) insertNewActiveBreak(activeElement *list.Element, index int, lowestDemerits float64, candidates map[fitnessClass]*breakPoint) {
+func (l *LineBreaker) insertNewActiveBreaks(activeElement *list.Element, index int, lowestDemerits float64, candidates [fitnessClasses]candidateT) {
 	sum := l.sumFromNode(index)
 
 	for class, candidate := range candidates {
@@ -242,16 +246,16 @@ func (l *LineBreaker) insertNewActiveBreak(activeElement *list.Element, index in
 		newBreak := newBreakPoint(
 			index,                                    // break at node index
 			candidate.totalDemerits, candidate.ratio, // ratings for this break point
-			candidate.line+1,
-			class,
-			sum,       // totals after this node
-			candidate, // link to the previous candidate breakpoint
+			candidate.active.line+1,
+			fitnessClass(class),
+			sum,              // totals after this node
+			candidate.active, // link to the previous breakpoint
 		)
 
 		if activeElement != nil {
 			_ = l.activeNodes.InsertBefore(newBreak, activeElement)
 
-			return
+			continue
 		}
 
 		_ = l.activeNodes.PushBack(newBreak)
diff --git a/linebreak/knuth_plass_types.go b/linebreak/knuth_plass_types.go
index ee38301..a512626 100644
--- a/linebreak/knuth_plass_types.go
+++ b/linebreak/knuth_plass_types.go
@@ -34,6 +34,13 @@ type (
 		next          *breakPoint
 	}
 
+	// candidateT is the best way found to reach a break point, for a given fitness class.
+	candidateT struct {
+		active        *breakPoint // the preceding breakpoint
+		totalDemerits float64     // total demerits up to the break point
+		ratio         float64     // adjustment ratio of the line ending at the break point
+	}
+
 	nodeType uint8
 
 	demeritsT struct {
@@ -81,6 +88,8 @@ const (
 	fitnessClassOne                       // "normal lines"
 	fitnessClassTwo                       // "loose lines"
 	fitnessClassThree                     // "very loose lines"
+
+	fitnessClasses = 4
 )
 
 func newBreakPoint(position int, demerits float64, ratio float64, line int, fitness fitnessClass, totals sums, previous *breakPoint) *breakPoint {
@@ -143,13 +152,12 @@ func newFitnessClass(ratio float64) fitnessClass {
 	}
 }
 
-func defaultCandidates() map[fitnessClass]*breakPoint {
-	return map[fitnessClass]*breakPoint{
-		fitnessClassZero:  newBreakPoint(0, maxDemerit, 0, 0, fitnessClassZero, sums{}, nil),
-		fitnessClassOne:   newBreakPoint(0, maxDemerit, 0, 0, fitnessClassOne, sums{}, nil),
-		fitnessClassTwo:   newBreakPoint(0, maxDemerit, 0, 0, fitnessClassTwo, sums{}, nil),
-		fitnessClassThree: newBreakPoint(0, maxDemerit, 0, 0, fitnessClassThree, sums{}, nil),
+func defaultCandidates() (candidates [fitnessClasses]candidateT) {
+	for class := range candidates {
+		candidates[class].totalDemerits = maxDemerit
 	}
+
+	return candidates
 }
 
 func (e err) Error() string {
diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 6a34641..5f2e5a0 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -165,15 +165,8 @@ func (l *LineBreaker) render(breakList *breakPoint) []string {
 				}
 
 			case node.isGlue():
-				// render a glue node
-				pad := node.width
-				if line.ratio < 0 {
-					pad += line.ratio * node.shrink
-				} else {
-					pad += line.ratio * node.stretch
-				}
-
-				spaces := repeatRunes(space, int(l.downScale(pad)))
+				// render a glue node: left-aligned lines are set with natural spaces, the slack remains on the right
+				spaces := repeatRunes(space, int(l.downScale(node.width)))
 				_, _ = runesWriter.WriteRunes(spaces)
 
 			case node.isPenalty():
-- 
2.43.0


From 662e2b7f7ab74d7098880b72723f12f6dca09bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 12/24] fix: render a hyphen only where a word is broken,
 whatever the penalties

The soft hyphen was recognized by the value of its penalty, which other break points may share.
---
 linebreak/knuth_plass_types.go | 19 ++++++++++++++-----
 linebreak/linebreaker.go       |  4 ++--
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/linebreak/knuth_plass_types.go b/linebreak/knuth_plass_types.go
index a512626..29723ce 100644
--- a/linebreak/knuth_plass_types.go
+++ b/linebreak/knuth_plass_types.go
@@ -8,11 +8,12 @@ import (
 
 type (
 	nodeT struct {
-		nodeType  nodeType
-		penalty   float64
-		flagged   bool
-		value     []rune
-		attribute attributes.Renderer // attributes such as color, italic, bold ...
+		nodeType   nodeType
+		penalty    float64
+		flagged    bool
+		softHyphen bool // for penalties, a break inside a word that renders as an hyphen
+		value      []rune
+		attribute  attributes.Renderer // attributes such as color, italic, bold ...
 
 		sums
 	}
@@ -138,6 +139,14 @@ func newPenalty(width float64, penalty float64, flagged bool) nodeT {
 	}
 }
 
+// newSoftHyphen is the penalty incurred when breaking a word.
+func newSoftHyphen(width float64, penalty float64) nodeT {
+	node := newPenalty(width, penalty, flaggedPenalty)
+	node.softHyphen = true
+
+	return node
+}
+
 // newFitnessClass establish a coarse fitness classification according to the cost ratio.
 func newFitnessClass(ratio float64) fitnessClass {
 	switch {
diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 5f2e5a0..4bd7a06 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -170,7 +170,7 @@ func (l *LineBreaker) render(breakList *breakPoint) []string {
 				_, _ = runesWriter.WriteRunes(spaces)
 
 			case node.isPenalty():
-				if l.renderHyphens && node.penalty == l.hyphenPenalty && index == len(line.nodes)-1 {
+				if l.renderHyphens && node.softHyphen && index == len(line.nodes)-1 {
 					// render a soft hyphen node
 					_, _ = runesWriter.WriteRunes(hyphen)
 				}
@@ -289,7 +289,7 @@ func (l *LineBreaker) pushHyphen() []nodeT {
 			// ragged right:
 			newPenalty(noWidth, infinity, unflaggedPenalty),
 			newGlue(noWidth, l.glueStretch, noShrink),
-			newPenalty(l.hyphenWidth, l.hyphenPenalty, flaggedPenalty),
+			newSoftHyphen(l.hyphenWidth, l.hyphenPenalty),
 			newGlue(noWidth, -l.glueStretch, noShrink),
 		}
 	}
-- 
2.43.0


From acb5ad164e0abfb30c22bf780825ec6a6f782f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 13/24] fix: reset attributes when a LineBreaker is reused for
 another paragraph

---
 linebreak/linebreaker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 4bd7a06..1ebee44 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -78,6 +78,9 @@ func New(opts ...Option) *LineBreaker {
 //
 // TODO: move to [][]rune -> []rune
 func (l *LineBreaker) LeftAlignUniform(tokens []string, maxWidth float64) ([]string, error) {
+	// 0. reset the state of attributes left by a previous paragraph
+	l.attrList = attributes.NewState()
+
 	// 1. build a model that represent the tokens in terms of glue/box/penalty nodes
 	l.nodes = l.leftAlignedNodes(tokens)
 
-- 
2.43.0


From 555a8f1c34dbaa1019c171a2c41d13e616c8ed22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 14/24] fix: words may be broken when hyphens are not rendered

The break point had no stretchability, so it was only feasible on an exact fit.
---
 linebreak/linebreaker.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 1ebee44..26ab50e 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -284,22 +284,22 @@ func (l *LineBreaker) boxNodes(token []rune) []nodeT {
 }
 
 func (l *LineBreaker) pushHyphen() []nodeT {
+	// when hyphens are not rendered (words are just broken), there is no width associated to the penalty
+	width := noWidth
+
 	if l.renderHyphens {
 		// when rendering hyphens, the penalty incurs some consumed width
-		return []nodeT{
-			// justified:
-			// newPenalty(l.hyphenWidth, l.hyphenPenalty, flaggedPenalty),
-			// ragged right:
-			newPenalty(noWidth, infinity, unflaggedPenalty),
-			newGlue(noWidth, l.glueStretch, noShrink),
-			newSoftHyphen(l.hyphenWidth, l.hyphenPenalty),
-			newGlue(noWidth, -l.glueStretch, noShrink),
-		}
+		width = l.hyphenWidth
 	}
 
 	return []nodeT{
-		// when hyphens are not rendered (words are just broken), there is no width associated to the penalty
-		newPenalty(noWidth, l.hyphenPenalty, flaggedPenalty),
+		// justified:
+		// newPenalty(l.hyphenWidth, l.hyphenPenalty, flaggedPenalty),
+		// ragged right:
+		newPenalty(noWidth, infinity, unflaggedPenalty),
+		newGlue(noWidth, l.glueStretch, noShrink),
+		newSoftHyphen(width, l.hyphenPenalty),
+		newGlue(noWidth, -l.glueStretch, noShrink),
 	}
 }
 
-- 
2.43.0


From 151dda969df97a2b9d726f4f08372a617aa00208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 15/24] fix: a line may start with a punctuation mark or a
 hyphen

The stretchable glue set before the mark is discarded at the start of a line, but not the one that compensates it after the mark,
so that lines which start with a mark could not stretch.
---
 linebreak/linebreaker.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 26ab50e..9a258f6 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -224,9 +224,9 @@ func (l *LineBreaker) boxNodes(token []rune) []nodeT {
 				// the punctuation mark. E.g. ";", "&", "." should probably deserve a special processing.
 				// For the moment, this package essentially supports rendering with fixed-width fonts on a terminal, so this is not really needed.
 				nodes = append(nodes,
+					newBox(l.scale(l.measurer(strippedFromPunct)), strippedFromPunct, tokenState.Current()), // no space before the punctuation mark. Some typographic rules disagree with this, e.g. for ";"
 					newPenalty(noWidth, infinity, unflaggedPenalty),
-					newGlue(noWidth, l.glueStretch, noShrink), // no space before the punctuation mark. Some typographic rules disagree with this, e.g. for ";"
-					newBox(l.scale(l.measurer(strippedFromPunct)), strippedFromPunct, tokenState.Current()),
+					newGlue(noWidth, l.glueStretch, noShrink),
 					newPenalty(noWidth, l.punctuationPenalty, flaggedPenalty), // this penalty won't be mixed with hyphens
 					newGlue(noWidth, -l.glueStretch, noShrink),
 				)
@@ -247,9 +247,9 @@ func (l *LineBreaker) boxNodes(token []rune) []nodeT {
 				if hyphenator.IsHyphen(word) {
 					tokenState.Start(word)
 					nodes = append(nodes,
+						newBox(l.scale(l.measurer(word)), word, tokenState.Current()),
 						newPenalty(noWidth, infinity, unflaggedPenalty),
 						newGlue(noWidth, l.glueStretch, noShrink),
-						newBox(l.scale(l.measurer(word)), word, tokenState.Current()),
 						newPenalty(noWidth, l.hardHyphenPenalty, flaggedPenalty), // this penalty won't be mixed with soft hyphens
 						newGlue(noWidth, -l.glueStretch, noShrink),
 					)
-- 
2.43.0


From af07936107e985d15c3b6bd97d4683d7f3de94d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 16/24] fix: keep the escape sequences that are not adjacent to
 some text when breaking lines

Chained start sequences and tokens made only of escape sequences were dropped, and the latter left a spurious space
(or a paragraph that could not be set, as the first token).
---
 linebreak/linebreaker.go | 68 ++++++++++++++++++++++++++++++++++------
 1 file changed, 58 insertions(+), 10 deletions(-)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 9a258f6..fab9ebf 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -24,6 +24,11 @@ type (
 		spaceWidth  float64
 		hyphenWidth float64
 		attrList    *attributes.State
+
+		startSequence []rune              // start sequences waiting for some text to render
+		lastRenderer  attributes.Renderer // the last renderer pushed to attrList
+		stopSequence  []rune              // the stop sequence of the last renderer
+
 		// spaceStretch float64
 		// spaceShrink  float64
 
@@ -80,6 +85,7 @@ func New(opts ...Option) *LineBreaker {
 func (l *LineBreaker) LeftAlignUniform(tokens []string, maxWidth float64) ([]string, error) {
 	// 0. reset the state of attributes left by a previous paragraph
 	l.attrList = attributes.NewState()
+	l.startSequence, l.lastRenderer, l.stopSequence = nil, nil, nil
 
 	// 1. build a model that represent the tokens in terms of glue/box/penalty nodes
 	l.nodes = l.leftAlignedNodes(tokens)
@@ -210,6 +216,18 @@ func (l *LineBreaker) boxNodes(token []rune) []nodeT {
 	nodes := make([]nodeT, 0, 10)
 
 	for _, stripped := range ansi.StripToken(token) { // there may be several start/stop escape sequences: break them down
+		if len(stripped.Text) == 0 {
+			// escape sequences without any text to render: remember them for the text that comes before or after
+			l.pushSequences(stripped)
+
+			continue
+		}
+
+		if len(l.startSequence) > 0 {
+			stripped.StartSequence = append(l.startSequence, stripped.StartSequence...)
+			l.startSequence = nil
+		}
+
 		tokenState := newTokenState(stripped, l.attrList)
 
 		// this text has been stripped from start/stop escape sequences. The attribute renderer will remember the start/stop sequences.
@@ -278,11 +296,33 @@ func (l *LineBreaker) boxNodes(token []rune) []nodeT {
 		}
 		// add stop to the last renderer
 		tokenState.Stop()
+		l.lastRenderer, l.stopSequence = tokenState.Current(), stripped.StopSequence
 	}
 
 	return nodes
 }
 
+// pushSequences keeps track of escape sequences that do not come with some text.
+//
+// A start sequence is deferred to the next rendered text. A stop sequence completes the last rendered text.
+func (l *LineBreaker) pushSequences(stripped ansi.StrippedToken) {
+	l.startSequence = append(l.startSequence, stripped.StartSequence...)
+	if len(stripped.StopSequence) == 0 {
+		return
+	}
+
+	isStarted := len(l.startSequence) > 0
+	l.startSequence = nil // started, then stopped with nothing to render in between
+
+	last := l.lastRenderer
+	if last == nil || isStarted && (last.HasStop() || last.Level() == 0) {
+		return
+	}
+
+	l.stopSequence = append(l.stopSequence[:len(l.stopSequence):len(l.stopSequence)], stripped.StopSequence...)
+	last.SetStop(l.stopSequence)
+}
+
 func (l *LineBreaker) pushHyphen() []nodeT {
 	// when hyphens are not rendered (words are just broken), there is no width associated to the penalty
 	width := noWidth
@@ -312,18 +352,26 @@ func (l *LineBreaker) leftAlignedNodes(tokens []string) []nodeT {
 	nodes := make([]nodeT, 0, 4*(len(tokens)-1)+3)
 
 	// transform tokens into a list of nodes of type (box|glue|penalty)
-	for _, word := range tokens[:len(tokens)-1] {
-		nodes = append(nodes, l.boxNodes([]rune(word))...) // a word token, possibly broken in parts
-		// from K&P: justified:
-		// nodes = append(nodes, newGlue(l.spaceWidth, l.glueStretch, l.glueShrink))
-		// from K&P: ragged right:
-		nodes = append(nodes, newGlue(noWidth, l.glueStretch, noShrink))
-		nodes = append(nodes, newPenalty(noWidth, 0, unflaggedPenalty))
-		nodes = append(nodes, newGlue(l.spaceWidth, -l.glueStretch, noShrink))
+	for _, word := range tokens {
+		wordNodes := l.boxNodes([]rune(word)) // a word token, possibly broken in parts
+		if len(wordNodes) == 0 {
+			// nothing to render, e.g. a token made only of escape sequences
+			continue
+		}
+
+		if len(nodes) > 0 {
+			// from K&P: justified:
+			// nodes = append(nodes, newGlue(l.spaceWidth, l.glueStretch, l.glueShrink))
+			// from K&P: ragged right:
+			nodes = append(nodes, newGlue(noWidth, l.glueStretch, noShrink))
+			nodes = append(nodes, newPenalty(noWidth, 0, unflaggedPenalty))
+			nodes = append(nodes, newGlue(l.spaceWidth, -l.glueStretch, noShrink))
+		}
+
+		nodes = append(nodes, wordNodes...)
 	}
 
-	// last token: complete the list of nodes with a final infinite glue and penalty.
-	nodes = append(nodes, l.boxNodes([]rune(tokens[len(tokens)-1]))...)
+	// complete the list of nodes with a final infinite glue and penalty.
 	nodes = append(nodes, newGlue(noWidth, infinity, noShrink))
 	nodes = append(nodes, newPenalty(noWidth, -infinity, flaggedPenalty))
 
-- 
2.43.0


From c4b84ad94c989165ae7a5714050fd187eabacd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 17/24] fix: SliceReader reports a valid size for invalid runes

A negative size shifted the byte offsets of all the runes that follow.
---
 terminal/runes/runesio/slice_reader.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/terminal/runes/runesio/slice_reader.go b/terminal/runes/runesio/slice_reader.go
index f66bb03..295e3ad 100644
--- a/terminal/runes/runesio/slice_reader.go
+++ b/terminal/runes/runesio/slice_reader.go
@@ -36,7 +36,7 @@ func (r *SliceReader) ReadRune() (rune, int, error) {
 	rn := r.runes[r.offset]
 	r.offset++
 
-	return rn, utf8.RuneLen(rn), nil
+	return rn, runeLen(rn), nil
 }
 
 // Runes returns unread runes.
@@ -121,7 +121,7 @@ func (r *SliceReader) SliceFromByteOffsets(slice []int) [][]rune {
 			if offset < startByte {
 				startRune++
 			}
-			offset += utf8.RuneLen(rn)
+			offset += runeLen(rn)
 
 			if offset > endByte {
 				break
@@ -134,3 +134,14 @@ func (r *SliceReader) SliceFromByteOffsets(slice []int) [][]rune {
 
 	return groups
 }
+
+// runeLen returns the number of bytes required to encode a rune.
+//
+// Like with any UTF-8 encoder, invalid runes count as utf8.RuneError.
+func runeLen(rn rune) int {
+	if size := utf8.RuneLen(rn); size > 0 {
+		return size
+	}
+
+	return utf8.RuneLen(utf8.RuneError)
+}
-- 
2.43.0


From 582606235de805ed3fed71e54a1a8e9f9df23994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:27 +0000
Subject: [PATCH 18/24] fix: LoadPatterns reports read errors, e.g. when the
 name is a directory

---
 wordbreak/hyphenator/dictionary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wordbreak/hyphenator/dictionary.go b/wordbreak/hyphenator/dictionary.go
index 79beb6b..57a80a6 100644
--- a/wordbreak/hyphenator/dictionary.go
+++ b/wordbreak/hyphenator/dictionary.go
@@ -132,6 +132,10 @@ func LoadPatterns(patternfile string) (*Dictionary, error) {
 		}
 	}
 
+	if err = scanner.Err(); err != nil {
+		return nil, err
+	}
+
 	return dict, nil
 }
 
-- 
2.43.0


From 5a17fa2427acfcaca41c84d6ec0384d0e28697f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 19/24] fix: detect an ANSI escape sequence that interrupts an
 unfinished one

---
 terminal/ansi/ansi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terminal/ansi/ansi.go b/terminal/ansi/ansi.go
index 4e69365..7124e7e 100644
--- a/terminal/ansi/ansi.go
+++ b/terminal/ansi/ansi.go
@@ -298,7 +298,7 @@ func decodeANSISequence(rdr *runesio.SliceReader) ([]rune, kind) {
 		sequenceKind = otherSequence
 	}
 
-	if err == nil {
+	if err == nil && r != esc { // an ESC interrupts this sequence and may start another one
 		runeCount++
 		nextStart++
 	}
-- 
2.43.0


From feb9d74266dd1e67011214522c8b3729c4d82e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 20/24] fix: an inter-word space renders as one space, whatever
 its measure and scale

---
 linebreak/knuth_plass_types.go | 10 ++++++++++
 linebreak/linebreaker.go       | 22 ++--------------------
 2 files changed, 12 insertions(+), 20 deletions(-)

diff --git a/linebreak/knuth_plass_types.go b/linebreak/knuth_plass_types.go
index 29723ce..83e6a22 100644
--- a/linebreak/knuth_plass_types.go
+++ b/linebreak/knuth_plass_types.go
@@ -117,6 +117,16 @@ func newGlue(width, stretch, shrink float64) nodeT {
 	}
 }
 
+// newSpace is the glue between two words, rendered as a single space whatever its measure.
+//
+//nolint:unparam
+func newSpace(width, stretch, shrink float64) nodeT {
+	node := newGlue(width, stretch, shrink)
+	node.value = space
+
+	return node
+}
+
 func newBox(width float64, value []rune, attribute attributes.Renderer) nodeT {
 	return nodeT{
 		nodeType: nodeTypeBox,
diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index fab9ebf..fbbae20 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -120,10 +120,6 @@ func (l *LineBreaker) scale(in float64) float64 {
 	return math.Round(in * l.scaleFactor)
 }
 
-func (l *LineBreaker) downScale(in float64) float64 {
-	return math.Round(in / l.scaleFactor)
-}
-
 func skipNodes(start int, nodes []nodeT) int {
 	for j, node := range nodes[start:] {
 		// skip nodes after a line break
@@ -175,8 +171,7 @@ func (l *LineBreaker) render(breakList *breakPoint) []string {
 
 			case node.isGlue():
 				// render a glue node: left-aligned lines are set with natural spaces, the slack remains on the right
-				spaces := repeatRunes(space, int(l.downScale(node.width)))
-				_, _ = runesWriter.WriteRunes(spaces)
+				_, _ = runesWriter.WriteRunes(node.value)
 
 			case node.isPenalty():
 				if l.renderHyphens && node.softHyphen && index == len(line.nodes)-1 {
@@ -193,19 +188,6 @@ func (l *LineBreaker) render(breakList *breakPoint) []string {
 	return result
 }
 
-func repeatRunes(in []rune, times int) []rune {
-	if len(in) == 0 || times == 0 {
-		return []rune{}
-	}
-
-	out := make([]rune, 0, len(in)*times)
-	for j := 0; j < times; j++ {
-		out = append(out, in...)
-	}
-
-	return out
-}
-
 // boxNodes models box nodes with possible word breaks (suited for left-aligned output).
 //
 // Raw tokens are split into:
@@ -365,7 +347,7 @@ func (l *LineBreaker) leftAlignedNodes(tokens []string) []nodeT {
 			// from K&P: ragged right:
 			nodes = append(nodes, newGlue(noWidth, l.glueStretch, noShrink))
 			nodes = append(nodes, newPenalty(noWidth, 0, unflaggedPenalty))
-			nodes = append(nodes, newGlue(l.spaceWidth, -l.glueStretch, noShrink))
+			nodes = append(nodes, newSpace(l.spaceWidth, -l.glueStretch, noShrink))
 		}
 
 		nodes = append(nodes, wordNodes...)
-- 
2.43.0


From bc6d7c9d145bc4111e002ae1449ac4971b466769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:54 +0000
Subject: [PATCH 21/24] fix: StripToken never writes to its input, which may be
 shared between goroutines

---
 terminal/ansi/ansi.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/terminal/ansi/ansi.go b/terminal/ansi/ansi.go
index 7124e7e..543c412 100644
--- a/terminal/ansi/ansi.go
+++ b/terminal/ansi/ansi.go
@@ -133,8 +133,9 @@ func StripANSIFromRunes(rns []rune) StrippedToken {
 			if groups[1] == nil {
 				groups[1] = endANSI // should normally never end up here
 			} else {
-				// indulge into one allocation
-				groups[1] = append(groups[1], endANSI...)
+				// indulge into one allocation: the text is a slice of the input, which is never written to
+				text := groups[1]
+				groups[1] = append(text[:len(text):len(text)], endANSI...)
 			}
 
 		case sequenceKind == otherSequence && len(groups[2]) > 0:
-- 
2.43.0


From 9e63210287193df9410ef2db85650ab5dbfee5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:28 +0000
Subject: [PATCH 22/24] fix: strip_comments reports a line too long to be read,
 rather than dropping the rest of the file

---
 wordbreak/hyphenator/languages/strip_comments.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wordbreak/hyphenator/languages/strip_comments.go b/wordbreak/hyphenator/languages/strip_comments.go
index 8eae926..942f111 100644
--- a/wordbreak/hyphenator/languages/strip_comments.go
+++ b/wordbreak/hyphenator/languages/strip_comments.go
@@ -58,7 +58,7 @@ func strip(pth string) error {
 		}
 	}
 
-	return nil
+	return scanner.Err() // e.g. a line which is too long
 }
 
 func isTeXComment(line string) bool {
-- 
2.43.0


From fe3f8ac71f2a6a9983194f7284d0a90f33cbf40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:43 +0000
Subject: [PATCH 23/24] fix: build_tables leaves the tables as they are when
 the Unicode data cannot be retrieved whole

---
 terminal/runes/build_tables.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/terminal/runes/build_tables.go b/terminal/runes/build_tables.go
index 370c700..29eed44 100644
--- a/terminal/runes/build_tables.go
+++ b/terminal/runes/build_tables.go
@@ -60,7 +60,12 @@ func main() {
 	}
 	defer resp.Body.Close()
 
-	_ = eastasian(f, resp.Body)
+	if resp.StatusCode != http.StatusOK {
+		log.Fatalf("retrieving %s: %s", targetWidthProperties, resp.Status)
+	}
+	if err = eastasian(f, resp.Body); err != nil {
+		log.Fatalf("reading %s: %v", targetWidthProperties, err)
+	}
 
 	// retrieve unicode emojis with Extended_Pictographics
 	resp, err = http.Get(targetEmojiProperties)
@@ -69,7 +74,12 @@ func main() {
 	}
 	defer resp.Body.Close()
 
-	_ = emoji(f, resp.Body)
+	if resp.StatusCode != http.StatusOK {
+		log.Fatalf("retrieving %s: %s", targetEmojiProperties, resp.Status)
+	}
+	if err = emoji(f, resp.Body); err != nil {
+		log.Fatalf("reading %s: %v", targetEmojiProperties, err)
+	}
 
 	out, err := format.Source(f.Bytes())
 	if err != nil {
@@ -171,6 +181,9 @@ func eastasian(out io.Writer, in io.Reader) error {
 			})
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return err
+	}
 
 	cmb = shapeup(cmb)
 	generate(out, "combining", cmb)
@@ -227,6 +240,9 @@ func emoji(out io.Writer, in io.Reader) error {
 			hi: high,
 		})
 	}
+	if err := scanner.Err(); err != nil {
+		return err
+	}
 
 	arr = shapeup(arr)
 	generate(out, "emoji", arr)
-- 
2.43.0


From 81f9ca41206bcd6083cd050c8c6239ba584893c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:30 +0000
Subject: [PATCH 24/24] fix: nested attributes that stop at the same place are
 all closed, and not resumed on the next lines

---
 linebreak/linebreaker.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index fbbae20..8edaf1b 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -28,6 +28,9 @@ type (
 		startSequence []rune              // start sequences waiting for some text to render
 		lastRenderer  attributes.Renderer // the last renderer pushed to attrList
 		stopSequence  []rune              // the stop sequence of the last renderer
+		lastText      attributes.Renderer // the last renderer pushed to attrList with some text
+
+		closing map[attributes.Renderer]int // how many renderers without text stop enclosing sequences right after a text
 
 		// spaceStretch float64
 		// spaceShrink  float64
@@ -86,6 +89,7 @@ func (l *LineBreaker) LeftAlignUniform(tokens []string, maxWidth float64) ([]str
 	// 0. reset the state of attributes left by a previous paragraph
 	l.attrList = attributes.NewState()
 	l.startSequence, l.lastRenderer, l.stopSequence = nil, nil, nil
+	l.lastText, l.closing = nil, make(map[attributes.Renderer]int)
 
 	// 1. build a model that represent the tokens in terms of glue/box/penalty nodes
 	l.nodes = l.leftAlignedNodes(tokens)
@@ -167,6 +171,11 @@ func (l *LineBreaker) render(breakList *breakPoint) []string {
 				node.Render(runesWriter)
 				if node.HasRenderer() { // TODO: add state handling to box node
 					_ = attributesState.Next()
+
+					for closing := l.closing[node.attribute]; closing > 0; closing-- {
+						_ = attributesState.Next()
+						attributesState.Item().Render(runesWriter)
+					}
 				}
 
 			case node.isGlue():
@@ -279,6 +288,7 @@ func (l *LineBreaker) boxNodes(token []rune) []nodeT {
 		// add stop to the last renderer
 		tokenState.Stop()
 		l.lastRenderer, l.stopSequence = tokenState.Current(), stripped.StopSequence
+		l.lastText = l.lastRenderer
 	}
 
 	return nodes
@@ -301,6 +311,15 @@ func (l *LineBreaker) pushSequences(stripped ansi.StrippedToken) {
 		return
 	}
 
+	if last.HasStop() && last.Level() > 1 {
+		// already stopped: this stops the enclosing sequence, at the same place
+		l.lastRenderer, l.stopSequence = attributes.New(nil, nil, stripped.StopSequence), stripped.StopSequence
+		l.attrList.Push(l.lastRenderer)
+		l.closing[l.lastText]++
+
+		return
+	}
+
 	l.stopSequence = append(l.stopSequence[:len(l.stopSequence):len(l.stopSequence)], stripped.StopSequence...)
 	last.SetStop(l.stopSequence)
 }
-- 
2.43.0

