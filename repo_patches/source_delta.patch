From 91e2e6dc79c1b44710efb3cf43b7bcf47cbeb5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:07 +0000
Subject: [PATCH 01/37] fix: undo of a transposition at the end of the line
 used a wrong position

The undo record of SWAPCHAR at the end of the line pointed behind the two
swapped characters, so undoing it panicked or removed the wrong text.
---
 gommand.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gommand.go b/gommand.go
index 165599a..7845c47 100644
--- a/gommand.go
+++ b/gommand.go
@@ -362,7 +362,7 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 			return CONTINUE
 		}
 		u := &_Undo{
-			pos:  this.Cursor,
+			pos:  this.Cursor - 2,
 			del:  2,
 			text: cell2string(this.Buffer[this.Cursor-2 : this.Cursor]),
 		}
-- 
2.43.0


From e7e52e2b9b76427c38dfcee499d2b9bae0244c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:07 +0000
Subject: [PATCH 02/37] fix: the view could start to the right of the cursor on
 narrow terminals

When the character on the cursor is wider than the view, ResetViewStart
moved the start of the view past the cursor and drawing the line panicked.
---
 buffer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/buffer.go b/buffer.go
index 00418e4..f4150ac 100644
--- a/buffer.go
+++ b/buffer.go
@@ -159,6 +159,10 @@ func (B *Buffer) ResetViewStart() {
 				// When standard output is redirected.
 				return
 			}
+			if B.ViewStart >= B.Cursor {
+				// When the character on the cursor is wider than the view.
+				return
+			}
 			w -= B.Buffer[B.ViewStart].Moji.Width()
 			B.ViewStart++
 		}
-- 
2.43.0


From 5217ea67f3aa32df86a4bce95540ebc0a849147d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:07 +0000
Subject: [PATCH 03/37] fix: END_OF_LINE on the empty line panicked when the
 view has no columns

---
 gommand.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gommand.go b/gommand.go
index 7845c47..4e2ca4d 100644
--- a/gommand.go
+++ b/gommand.go
@@ -90,6 +90,9 @@ func cmdBackwardChar(ctx context.Context, this *Buffer) Result {
 var CmdEndOfLine = NewGoCommand("END_OF_LINE", cmdEndOfLine)
 
 func cmdEndOfLine(ctx context.Context, this *Buffer) Result {
+	if len(this.Buffer) <= 0 {
+		return CONTINUE
+	}
 	allength := this.GetWidthBetween(this.ViewStart, len(this.Buffer))
 	if allength < this.ViewWidth() {
 		this.puts(this.Buffer[this.Cursor:])
-- 
2.43.0


From 91cb09b527d19f5412aca476652a7887807bc64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:07 +0000
Subject: [PATCH 04/37] fix: FORWARD_CHAR accepted the prediction of an older
 line

Commands that do not repaint the whole line (KILL_LINE, KILL_WHOLE_LINE,
history, ...) left the prediction of the previous text, and moving right at
the end of the line inserted it.
---
 gommand.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gommand.go b/gommand.go
index 4e2ca4d..166ecfe 100644
--- a/gommand.go
+++ b/gommand.go
@@ -124,6 +124,7 @@ var CmdForwardChar = NewGoCommand("FORWARD_CHAR", cmdForwardChar)
 
 func cmdForwardChar(ctx context.Context, this *Buffer) Result {
 	if this.Cursor >= len(this.Buffer) {
+		this.updateSuffix()
 		if len(this.suffix) > 0 {
 			var s strings.Builder
 			for _, c := range this.suffix {
-- 
2.43.0


From 185dbc912770bda6079ff4ce6b190611171f0120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:07 +0000
Subject: [PATCH 05/37] fix: cycling from the oldest history entry lost its
 unsent edits

---
 history.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/history.go b/history.go
index fda3c69..824239f 100644
--- a/history.go
+++ b/history.go
@@ -52,6 +52,7 @@ func cmdPreviousHistory(ctx context.Context, this *Buffer) Result {
 		if !this.HistoryCycling {
 			return CONTINUE
 		}
+		this.saveModifiedHistory()
 		this.historyPointer = this.History.Len() + 1
 	}
 	this.saveModifiedHistory()
-- 
2.43.0


From c7815f6488fb57a1a7233833b54abc421467f5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:07 +0000
Subject: [PATCH 06/37] fix: a history entry edited back to its original text
 came back modified

---
 history.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/history.go b/history.go
index 824239f..05b7c78 100644
--- a/history.go
+++ b/history.go
@@ -25,6 +25,7 @@ var CmdPreviousHistory = NewGoCommand("PREVIOUS_HISTORY", cmdPreviousHistory)
 func (B *Buffer) saveModifiedHistory() {
 	s := B.String()
 	if B.historyPointer < B.History.Len() && B.History.At(B.historyPointer) == s {
+		delete(B.modifiedHistory, B.historyPointer)
 		return
 	}
 	if B.modifiedHistory == nil {
-- 
2.43.0


From 95c7a12d16ca8cc41d906d627193ee85c2783557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:07 +0000
Subject: [PATCH 07/37] fix: file completion panicked on an empty quoted word

---
 completion/file.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/completion/file.go b/completion/file.go
index e5e0ff9..6991d22 100644
--- a/completion/file.go
+++ b/completion/file.go
@@ -29,7 +29,10 @@ func (File) List(field []string) (fullnames []string, basenames []string) {
 	}
 	target := field[len(field)-1]
 	var dir, base string
-	if tail := target[len(target)-1]; tail == os.PathSeparator || tail == '/' {
+	if target == "" {
+		base = ""
+		dir = ""
+	} else if tail := target[len(target)-1]; tail == os.PathSeparator || tail == '/' {
 		base = ""
 		dir = target
 	} else {
-- 
2.43.0


From 8c25d2d7b33b7dce8d07464e5c23f329db4d84e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:07 +0000
Subject: [PATCH 08/37] fix: file completion never ended when the only match is
 an empty directory

---
 completion/file.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/completion/file.go b/completion/file.go
index 6991d22..6eae038 100644
--- a/completion/file.go
+++ b/completion/file.go
@@ -85,6 +85,10 @@ func (File) List(field []string) (fullnames []string, basenames []string) {
 		if len(fullnames) != 1 || !strings.HasSuffix(fullnames[0], sep) {
 			return
 		}
+		if dir == fullnames[0] {
+			// the only directory is empty
+			return
+		}
 		base = ""
 		dir = fullnames[0]
 	}
-- 
2.43.0


From 229a9f831a1eb94f64bcd9e0b4cc93647de69be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:07 +0000
Subject: [PATCH 09/37] fix: the common prefix of candidates was cut by the
 bytes of another candidate

Letters whose upper and lower case differ in byte length, and names that are
not valid UTF-8, made completion panic or cut a character in the middle.
---
 completion/main.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/completion/main.go b/completion/main.go
index 541ccaf..564f0f5 100644
--- a/completion/main.go
+++ b/completion/main.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/nyaosorg/go-box/v2"
 	rl "github.com/nyaosorg/go-readline-ny"
@@ -55,7 +56,15 @@ func commonPrefix(list []string) string {
 			minimumIndex = index + 1
 		}
 	}
-	return list[minimumIndex][:len(common)]
+	// upper and lower case of a letter can differ in the number of bytes
+	rest := utf8.RuneCountInString(common)
+	for i := range list[minimumIndex] {
+		if rest <= 0 {
+			return list[minimumIndex][:i]
+		}
+		rest--
+	}
+	return list[minimumIndex]
 }
 
 func removeQuotes(s, q string) string {
-- 
2.43.0


From 77843349f34d0f257869747364370ba458473446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:19 +0000
Subject: [PATCH 10/37] fix: BindKeySymbol looked the command up by the name of
 the key

---
 nameutils/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nameutils/main.go b/nameutils/main.go
index cf31273..2699bb2 100644
--- a/nameutils/main.go
+++ b/nameutils/main.go
@@ -25,7 +25,7 @@ func GetFunc(name string) (readline.Command, error) {
 }
 
 func BindKeySymbol(km *readline.KeyMap, key, funcName string) error {
-	f, err := GetFunc(key)
+	f, err := GetFunc(funcName)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 4f0ae2312af92d431629f9023b604e0843c1d4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:19 +0000
Subject: [PATCH 11/37] fix: ZERO WIDTH NON-JOINER was turned into ZERO WIDTH
 JOINER

Both were taken as joiners, but a sequence is always written with U+200D.
---
 internal/moji/moji.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/moji/moji.go b/internal/moji/moji.go
index 8b5a5bd..9dd3bb3 100644
--- a/internal/moji/moji.go
+++ b/internal/moji/moji.go
@@ -2,7 +2,6 @@ package moji
 
 import (
 	"io"
-	"unicode"
 	"unicode/utf8"
 )
 
@@ -138,7 +137,7 @@ func (s _VariationSequence) PrintTo(w io.Writer) {
 const zeroWidthJoinRune = '\u200D'
 
 func isZeroWidthJoin(r rune) bool {
-	return ZeroWidthJoinSequenceOk && unicode.Is(unicode.Join_Control, r)
+	return ZeroWidthJoinSequenceOk && r == zeroWidthJoinRune
 }
 
 func AreZeroWidthJoin(s string) bool {
-- 
2.43.0


From e9cce6f975f1409571a84e865676dc26248a475f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:39 +0000
Subject: [PATCH 12/37] fix: sequences with control characters were printed raw
 or altered

A variation selector, skin tone or joiner after a tab, a control character or
an escaped character made the terminal receive them unescaped. A joiner at
the end of the text or before such a character swallowed it or added U+FFFD.
---
 internal/moji/moji.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/internal/moji/moji.go b/internal/moji/moji.go
index 9dd3bb3..25348e2 100644
--- a/internal/moji/moji.go
+++ b/internal/moji/moji.go
@@ -148,6 +148,22 @@ func AreZeroWidthJoin(s string) bool {
 	return isZeroWidthJoin(r)
 }
 
+// isJoinable reports whether m is printed as it is. Characters printed in
+// another form (tab, ^X and <XXXX>) can not be a part of a sequence.
+func isJoinable(m Moji) bool {
+	switch m.(type) {
+	case *Tab, _CtrlCodePoint, _EscCodePoint:
+		return false
+	}
+	return true
+}
+
+// canFollowJoiner reports whether s starts with a character that can be joined.
+func canFollowJoiner(s string) bool {
+	r, size := utf8.DecodeRuneInString(s)
+	return size > 0 && isJoinable(rune2moji(r, 0))
+}
+
 func StringToMoji(s string) []Moji {
 	mojis := make([]Moji, 0, len(s))
 	var last Moji
@@ -156,8 +172,8 @@ func StringToMoji(s string) []Moji {
 		r, size := utf8.DecodeRuneInString(s)
 		s = s[size:]
 
-		if last != nil {
-			if isZeroWidthJoin(r) {
+		if last != nil && isJoinable(last) {
+			if isZeroWidthJoin(r) && canFollowJoiner(s) {
 				next, nextsize := utf8.DecodeRuneInString(s)
 				s = s[nextsize:]
 
@@ -190,8 +206,8 @@ func MojiWidthAndCountInString(s string) (width WidthT, count int) {
 		r, size := utf8.DecodeRuneInString(s)
 		s = s[size:]
 
-		if last != nil {
-			if isZeroWidthJoin(r) {
+		if last != nil && isJoinable(last) {
+			if isZeroWidthJoin(r) && canFollowJoiner(s) {
 				next, nextsize := utf8.DecodeRuneInString(s)
 				s = s[nextsize:]
 
-- 
2.43.0


From 64958594d954c60bd0b94331a8e7fc58c7aa32be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:39 +0000
Subject: [PATCH 13/37] fix: tabs after a joined character had a wrong position
 in StringToMoji

The position was not advanced by the characters joined to the previous one, so
the width of the text differed from GetStringWidth.
---
 internal/moji/moji.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/moji/moji.go b/internal/moji/moji.go
index 25348e2..3961672 100644
--- a/internal/moji/moji.go
+++ b/internal/moji/moji.go
@@ -192,8 +192,10 @@ func StringToMoji(s string) []Moji {
 				continue
 			}
 		}
+		if last != nil {
+			pos += int(last.Width())
+		}
 		last = rune2moji(r, pos)
-		pos += int(last.Width())
 		mojis = append(mojis, last)
 	}
 	return mojis
-- 
2.43.0


From 3fa141bbe0106451a5675a5235ed17be17a1dd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:39 +0000
Subject: [PATCH 14/37] fix: a tab beyond column 32767 made drawing the line
 panic

---
 internal/moji/codepoint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/moji/codepoint.go b/internal/moji/codepoint.go
index cbb3c04..f56c370 100644
--- a/internal/moji/codepoint.go
+++ b/internal/moji/codepoint.go
@@ -25,7 +25,7 @@ func (t *Tab) WriteTo(w io.Writer) (int64, error) {
 }
 
 func (t *Tab) SetPosition(pos int16) {
-	t.pos = pos
+	t.pos = pos & 3
 }
 
 // _RawCodePoint is for the character to print as is.
@@ -127,7 +127,7 @@ const (
 
 func rune2moji(ch rune, pos int) Moji {
 	if ch == '\t' {
-		return &Tab{pos: int16(pos)}
+		return &Tab{pos: int16(pos & 3)}
 	} else if ch < ' ' {
 		return _CtrlCodePoint(ch)
 	} else if boxDrawingBegin <= ch && ch <= boxDrawingEnd && AmbiguousIsWide {
-- 
2.43.0


From 122251c0650c9652c4af04a3c48ebcfa5afc9096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:39 +0000
Subject: [PATCH 15/37] fix: word commands ignored tabs and composed characters

A tab did not separate words, and a word starting with a joined, variation or
modifier sequence was taken to start behind it.
---
 buffer.go                  | 2 ++
 internal/moji/codepoint.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/buffer.go b/buffer.go
index f4150ac..cbb82ef 100644
--- a/buffer.go
+++ b/buffer.go
@@ -205,6 +205,8 @@ func (B *Buffer) CurrentWordTop() (wordTop int) {
 			} else if wordTop < 0 {
 				wordTop = i
 			}
+		} else if wordTop < 0 {
+			wordTop = i
 		}
 	}
 	if wordTop < 0 {
diff --git a/internal/moji/codepoint.go b/internal/moji/codepoint.go
index f56c370..14ef5e9 100644
--- a/internal/moji/codepoint.go
+++ b/internal/moji/codepoint.go
@@ -147,6 +147,8 @@ func rune2moji(ch rune, pos int) Moji {
 
 func MojiToRune(m Moji) (rune, bool) {
 	switch r := m.(type) {
+	case *Tab:
+		return '\t', true
 	case _RawCodePoint:
 		return rune(r), true
 	case _CtrlCodePoint:
-- 
2.43.0


From eabb991ca66a9f2905b8565ec49d496d2a64658d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:58 +0000
Subject: [PATCH 16/37] fix: a character followed by ZERO WIDTH JOINER was lost
 or moved

The character waiting for the one to be joined disappeared when a command
(even Enter) came next, when another joiner was typed, and was reordered when
a variation selector was typed.
---
 gommand.go | 8 ++++----
 main.go    | 4 ++++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/gommand.go b/gommand.go
index 166ecfe..24c1846 100644
--- a/gommand.go
+++ b/gommand.go
@@ -204,7 +204,10 @@ func (s SelfInserter) Call(ctx context.Context, this *Buffer) Result {
 	if len(keys) == 2 && keys[0] == '\x1B' { // for AltGr-shift
 		keys = keys[1:]
 	}
-	if moji.AreZeroWidthJoin(keys) && this.Cursor > 0 {
+	if len(this.pending) > 0 {
+		keys = this.pending + keys
+		this.pending = ""
+	} else if moji.AreZeroWidthJoin(keys) && this.Cursor > 0 {
 		this.pending = mojiAndStringToString(
 			this.Buffer[this.Cursor-1].Moji,
 			keys)
@@ -213,9 +216,6 @@ func (s SelfInserter) Call(ctx context.Context, this *Buffer) Result {
 		baseMoji := this.Buffer[this.Cursor-1].Moji
 		CmdBackwardDeleteChar.Func(ctx, this)
 		keys = mojiAndStringToString(baseMoji, keys)
-	} else if len(this.pending) > 0 {
-		keys = this.pending + keys
-		this.pending = ""
 	}
 
 	mojis := this.insertString(this.Cursor, keys)
diff --git a/main.go b/main.go
index 93af8e4..4b93f4d 100644
--- a/main.go
+++ b/main.go
@@ -219,6 +219,10 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 
 		io.WriteString(buffer.Out, ansiCursorOff)
 
+		if _, ok := f.(SelfInserter); !ok && len(buffer.pending) > 0 {
+			// no character follows the typed ZERO WIDTH JOINER
+			SelfInserter("").Call(ctx, &buffer)
+		}
 		rc := f.Call(ctx, &buffer)
 
 		io.WriteString(buffer.Out, ansiCursorOn)
-- 
2.43.0


From 787694b6d4e62e4578f3b8bccf892b37bdebceeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:58 +0000
Subject: [PATCH 17/37] fix: undo could divide the restored text differently
 and then panic

Undo kept removed text as a string. When it was put back, characters that had
been separate could join, and older undo records then pointed to wrong
positions.
---
 buffer.go  | 14 ++++++++++----
 gommand.go | 15 +++++++--------
 isearch.go |  2 +-
 3 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/buffer.go b/buffer.go
index cbb82ef..bf407c8 100644
--- a/buffer.go
+++ b/buffer.go
@@ -13,7 +13,7 @@ const forbiddenWidth WidthT = 3 // = lastcolumn(1) and FULLWIDTHCHAR-SIZE(2)
 type _Undo struct {
 	pos  int
 	del  int
-	text string
+	text []Cell
 }
 
 type Cell struct {
@@ -117,6 +117,12 @@ func mojis2cells(mojis []Moji) []Cell {
 	return cells
 }
 
+// copyCells copies cells as they are. Text taken back from a string might be
+// divided into cells in another way.
+func copyCells(cells []Cell) []Cell {
+	return append([]Cell(nil), cells...)
+}
+
 func (B *Buffer) insertString(pos int, s string) _Range {
 	list := mojis2cells(StringToMoji(s))
 	B.insert(pos, list)
@@ -138,7 +144,7 @@ func (B *Buffer) Delete(pos int, n int) WidthT {
 	}
 	u := &_Undo{
 		pos:  pos,
-		text: cell2string(B.Buffer[pos : pos+n]),
+		text: copyCells(B.Buffer[pos : pos+n]),
 	}
 	B.undoes = append(B.undoes, u)
 
@@ -230,13 +236,13 @@ func (B *Buffer) joinUndo() {
 	if u1.pos != u2.pos {
 		return
 	}
-	if u1.text != "" && u2.text != "" {
+	if len(u1.text) > 0 && len(u2.text) > 0 {
 		return
 	}
 	if u1.del != 0 && u2.del != 0 {
 		return
 	}
-	if u1.text == "" {
+	if len(u1.text) <= 0 {
 		u1.text = u2.text
 	}
 	if u1.del == 0 {
diff --git a/gommand.go b/gommand.go
index 24c1846..a6505ec 100644
--- a/gommand.go
+++ b/gommand.go
@@ -241,7 +241,7 @@ func cmdKillLine(ctx context.Context, this *Buffer) Result {
 	this.eraseline()
 	u := &_Undo{
 		pos:  this.Cursor,
-		text: cell2string(this.Buffer[this.Cursor:]),
+		text: copyCells(this.Buffer[this.Cursor:]),
 	}
 	this.undoes = append(this.undoes, u)
 	this.Buffer = this.Buffer[:this.Cursor]
@@ -254,7 +254,7 @@ var CmdKillWholeLine = NewGoCommand("KILL_WHOLE_LINE", cmdKillWholeLine)
 func cmdKillWholeLine(ctx context.Context, this *Buffer) Result {
 	u := &_Undo{
 		pos:  0,
-		text: cell2string(this.Buffer),
+		text: copyCells(this.Buffer),
 	}
 	this.undoes = append(this.undoes, u)
 	this.GotoHead()
@@ -368,7 +368,7 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 		u := &_Undo{
 			pos:  this.Cursor - 2,
 			del:  2,
-			text: cell2string(this.Buffer[this.Cursor-2 : this.Cursor]),
+			text: copyCells(this.Buffer[this.Cursor-2 : this.Cursor]),
 		}
 		this.undoes = append(this.undoes, u)
 		this.Buffer[this.Cursor-2], this.Buffer[this.Cursor-1] = this.Buffer[this.Cursor-1], this.Buffer[this.Cursor-2]
@@ -382,7 +382,7 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 		u := &_Undo{
 			pos:  this.Cursor - 1,
 			del:  2,
-			text: cell2string(this.Buffer[this.Cursor-1 : this.Cursor+1]),
+			text: copyCells(this.Buffer[this.Cursor-1 : this.Cursor+1]),
 		}
 		this.undoes = append(this.undoes, u)
 
@@ -455,10 +455,9 @@ func cmdUndo(ctx context.Context, this *Buffer) Result {
 	if u.del > 0 {
 		this.Buffer = sliceDelete(this.Buffer, u.pos, u.del)
 	}
-	if u.text != "" {
-		cells := mojis2cells(StringToMoji(u.text))
-		this.Buffer = sliceInsert(this.Buffer, u.pos, cells...)
-		this.Cursor = u.pos + len(cells)
+	if len(u.text) > 0 {
+		this.Buffer = sliceInsert(this.Buffer, u.pos, u.text...)
+		this.Cursor = u.pos + len(u.text)
 	} else {
 		this.Cursor = u.pos
 	}
diff --git a/isearch.go b/isearch.go
index e983554..6f1f11d 100644
--- a/isearch.go
+++ b/isearch.go
@@ -74,7 +74,7 @@ func cmdISearchBackward(ctx context.Context, this *Buffer) Result {
 			this.ViewStart = 0
 			u := &_Undo{
 				pos:  0,
-				text: cell2string(this.Buffer),
+				text: copyCells(this.Buffer),
 			}
 			this.undoes = append(this.undoes, u)
 			this.Buffer = this.Buffer[:0]
-- 
2.43.0


From cae23138fc01f1470d30713d579b0de6ba0f00b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:17 +0000
Subject: [PATCH 18/37] fix: moving right over a wide character drew beyond the
 view

The line was scrolled by two characters at most, which is not enough for tabs,
escaped and joined characters.
---
 gommand.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gommand.go b/gommand.go
index a6505ec..a817c5a 100644
--- a/gommand.go
+++ b/gommand.go
@@ -145,6 +145,9 @@ func cmdForwardChar(ctx context.Context, this *Buffer) Result {
 			this.ViewStart++
 		}
 		this.ViewStart++
+		for this.ViewStart < this.Cursor && this.GetWidthBetween(this.ViewStart, this.Cursor+1) >= this.ViewWidth() {
+			this.ViewStart++
+		}
 		this.puts(this.Buffer[this.ViewStart : this.Cursor+1])
 		this.eraseline()
 	}
-- 
2.43.0


From 26a00d61b575c8ccd2f4901ef0be6ed8d2b20968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:17 +0000
Subject: [PATCH 19/37] fix: SWAPCHAR left the rest of the line as it was drawn
 before

The width of tabs and the colors of the characters on the right side can change
by the swap.
---
 gommand.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gommand.go b/gommand.go
index a817c5a..106c078 100644
--- a/gommand.go
+++ b/gommand.go
@@ -398,6 +398,11 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 		this.Cursor++
 		this.puts(this.Buffer[this.ViewStart:this.Cursor])
 	}
+	// The width of tabs and the colors on the right side can change, too.
+	if this.GetWidthBetween(this.ViewStart, this.Cursor) >= this.ViewWidth() {
+		this.ResetViewStart()
+	}
+	this.repaint()
 	return CONTINUE
 }
 
-- 
2.43.0


From 576fb3fbdbeb6b0467745a2a234a921ce2bb85b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:17 +0000
Subject: [PATCH 20/37] fix: repainting all with a prompt too wide for the
 terminal hid the line

RepaintAll did not move the line to its own row as ReadLine does, and kept the
old start of the view though the width of the prompt can change.
---
 repaints.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/repaints.go b/repaints.go
index 36151a8..c1458ff 100644
--- a/repaints.go
+++ b/repaints.go
@@ -107,6 +107,12 @@ func (B *Buffer) RepaintAfterPrompt() {
 func (B *Buffer) RepaintAll() {
 	B.Out.Flush()
 	B.topColumn, _ = B.callPromptWriter()
+	if B.topColumn >= B.termWidth-3 {
+		// ViewWidth is too narrow to edit.
+		B.Out.WriteString("\n")
+		B.topColumn = 0
+	}
+	B.ResetViewStart()
 	B.repaint()
 }
 
-- 
2.43.0


From 62b66745008bbb7694d4e8ef79499302becc35ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:13:34 +0000
Subject: [PATCH 21/37] fix: the view was computed with outdated widths of tabs

The column where a tab starts was updated only while drawing, after the part
of the line to be drawn had been chosen. So text could be hidden or drawn beyond the
view after characters before a tab were inserted or deleted.
---
 buffer.go  | 14 ++++++++++++++
 gommand.go |  1 +
 2 files changed, 15 insertions(+)

diff --git a/buffer.go b/buffer.go
index bf407c8..d1be74c 100644
--- a/buffer.go
+++ b/buffer.go
@@ -99,8 +99,21 @@ func (B *Buffer) getView2() (all _Range, before _Range, w WidthT) {
 	return v, v[:x], w
 }
 
+// resetTabPosition tells all tabs the column they start from because their
+// width depends on it.
+func (B *Buffer) resetTabPosition() {
+	position := WidthT(0)
+	for _, c := range B.Buffer {
+		if tab, ok := c.Moji.(*moji.Tab); ok {
+			tab.SetPosition(int16(position & 3))
+		}
+		position += c.Moji.Width()
+	}
+}
+
 func (B *Buffer) insert(csrPos int, insStr []Cell) {
 	B.Buffer = sliceInsert(B.Buffer, csrPos, insStr...)
+	B.resetTabPosition()
 
 	u := &_Undo{
 		pos: csrPos,
@@ -150,6 +163,7 @@ func (B *Buffer) Delete(pos int, n int) WidthT {
 
 	delw := B.GetWidthBetween(pos, pos+n)
 	B.Buffer = sliceDelete(B.Buffer, pos, n)
+	B.resetTabPosition()
 	return delw
 }
 
diff --git a/gommand.go b/gommand.go
index 106c078..5a9c2b8 100644
--- a/gommand.go
+++ b/gommand.go
@@ -469,6 +469,7 @@ func cmdUndo(ctx context.Context, this *Buffer) Result {
 	} else {
 		this.Cursor = u.pos
 	}
+	this.resetTabPosition()
 	this.ResetViewStart()
 	this.repaint()
 	return CONTINUE
-- 
2.43.0


From cc57140e73a659f76d385bbde7f42b01c10447fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:34:48 +0000
Subject: [PATCH 22/37] fix: a skin tone after a variation sequence or a flag
 had another width on the screen The base was printed as it is, though its
 width is only kept by moving the cursor explicitly. So the cursor was shown
 in a wrong column.

---
 internal/moji/moji.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/moji/moji.go b/internal/moji/moji.go
index 3961672..2a67da2 100644
--- a/internal/moji/moji.go
+++ b/internal/moji/moji.go
@@ -87,7 +87,15 @@ func (s _ModifierSequence) WriteTo(w io.Writer) (int64, error) {
 }
 
 func (s _ModifierSequence) PrintTo(w io.Writer) {
-	s.WriteTo(w)
+	switch s[0].(type) {
+	case _RawCodePoint, _RegionalIndicator:
+		s.WriteTo(w)
+	default:
+		// The terminal might not use the width that s[0] is printed with.
+		saveCursorAfterN(w, s.Width())
+		s.WriteTo(w)
+		restoreCursor(w)
+	}
 }
 
 type _VariationSequence [2]Moji
-- 
2.43.0


From 13574df8e561602fb4e5f2d78cc2904f230f74da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:38 +0000
Subject: [PATCH 23/37] fix: the coloring got terminal control characters for
 composed characters

It was fed with what is printed for them, including cursor movements and
padding spaces, instead of with the characters of the line.
---
 repaints.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repaints.go b/repaints.go
index c1458ff..dcfdeb8 100644
--- a/repaints.go
+++ b/repaints.go
@@ -27,7 +27,7 @@ func (B *Buffer) refreshColor() ColorSequence {
 		} else if codepoint, ok := moji.MojiToRune(cell.Moji); ok {
 			B.Buffer[i].color = ColorSequence(B.Coloring.Next(codepoint))
 		} else {
-			cell.Moji.PrintTo(&tmpbuf)
+			cell.Moji.WriteTo(&tmpbuf)
 			var cs ColorSequence
 			for _, c := range tmpbuf.String() {
 				cs = ColorSequence(B.Coloring.Next(c))
-- 
2.43.0


From 9d16e0288344d7656eee225c4cad315552d3b612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:52 +0000
Subject: [PATCH 24/37] fix: moving to the right kept the colors of the old
 cursor position

A coloring is told where the cursor is, so all colors of the line can change
when the cursor moves.
---
 gommand.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gommand.go b/gommand.go
index 5a9c2b8..75cd616 100644
--- a/gommand.go
+++ b/gommand.go
@@ -116,6 +116,8 @@ func cmdEndOfLine(ctx context.Context, this *Buffer) Result {
 		this.Cursor = len(this.Buffer)
 	}
 	this.eraseline()
+	// The colors can depend on the position of the cursor.
+	this.repaint()
 	return CONTINUE
 }
 
@@ -152,6 +154,8 @@ func cmdForwardChar(ctx context.Context, this *Buffer) Result {
 		this.eraseline()
 	}
 	this.Cursor++
+	// The colors can depend on the position of the cursor.
+	this.repaint()
 	return CONTINUE
 }
 
@@ -440,6 +444,8 @@ func cmdForwardWord(ctx context.Context, this *Buffer) Result {
 	if w < this.ViewWidth() {
 		this.puts(this.Buffer[this.Cursor:newPos])
 		this.Cursor = newPos
+		// The colors can depend on the position of the cursor.
+		this.repaint()
 	} else {
 		this.Cursor = newPos
 		this.ResetViewStart()
-- 
2.43.0


From b7bd61d0d75c33577ee81c5109bfe64b5f8cd57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:47:42 +0000
Subject: [PATCH 25/37] fix: completion could remove a typed letter

Candidates are matched by case folding but their common prefix was found by
comparing upper case letters. They differ for some letters, e.g. Greek theta.
---
 completion/main.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/completion/main.go b/completion/main.go
index 564f0f5..70a72e4 100644
--- a/completion/main.go
+++ b/completion/main.go
@@ -3,7 +3,6 @@ package completion
 import (
 	"context"
 	"strings"
-	"unicode"
 	"unicode/utf8"
 
 	"github.com/nyaosorg/go-box/v2"
@@ -44,7 +43,7 @@ func commonPrefix(list []string) string {
 				break
 			}
 			fh, _, err := fr.ReadRune()
-			if err != nil || unicode.ToUpper(ch) != unicode.ToUpper(fh) {
+			if err != nil || !strings.EqualFold(string(ch), string(fh)) {
 				break
 			}
 			buffer.WriteRune(ch)
-- 
2.43.0


From 35c0e6d219cdb04fe422b41f46c2eba9737343ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:47:43 +0000
Subject: [PATCH 26/37] fix: completion missed names with letters whose cases
 differ in length

The typed text was compared with as many bytes of the name, but e.g. U+023A
has two bytes and its lower case letter has three.
---
 completion/file.go |  5 +----
 completion/main.go | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/completion/file.go b/completion/file.go
index 6eae038..daff681 100644
--- a/completion/file.go
+++ b/completion/file.go
@@ -67,10 +67,7 @@ func (File) List(field []string) (fullnames []string, basenames []string) {
 			if name == "." || name == ".." {
 				continue
 			}
-			if len(name) < len(base) {
-				continue
-			}
-			if !strings.EqualFold(base, name[:len(base)]) {
+			if !hasPrefixFold(name, base) {
 				continue
 			}
 			// Do not use filepath.Join because it removes "./"
diff --git a/completion/main.go b/completion/main.go
index 70a72e4..0683d08 100644
--- a/completion/main.go
+++ b/completion/main.go
@@ -132,9 +132,22 @@ func hasToInsertQuotation(list []string, spaceAndSoOn string) bool {
 	return false
 }
 
+// hasPrefixFold tells whether s begins with prefix ignoring case. Upper and
+// lower case of a letter can differ in the number of bytes.
+func hasPrefixFold(s, prefix string) bool {
+	rest := utf8.RuneCountInString(prefix)
+	for i := range s {
+		if rest <= 0 {
+			return strings.EqualFold(prefix, s[:i])
+		}
+		rest--
+	}
+	return strings.EqualFold(prefix, s)
+}
+
 func removeUnmatches(full, base []string, source string) (newFull, newBase []string) {
 	for i, name := range full {
-		if len(name) >= len(source) && strings.EqualFold(source, name[:len(source)]) {
+		if hasPrefixFold(name, source) {
 			newFull = append(newFull, name)
 			newBase = append(newBase, base[i])
 		}
-- 
2.43.0


From 49e597ec55ec20c2e173fdffccba58106d62d26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:55:24 +0000
Subject: [PATCH 27/37] fix: an escape followed by a NUL was joined with the
 next key

The NUL is skipped, but then it must be checked again whether anything
follows the escape.
---
 getkey.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/getkey.go b/getkey.go
index 1d4b376..774be59 100644
--- a/getkey.go
+++ b/getkey.go
@@ -34,6 +34,9 @@ func GetRawKey(tty XTty) (string, error) {
 			return "", err
 		}
 		if r == 0 {
+			if escape && !tty.Buffered() {
+				return buffer.String(), nil
+			}
 			continue
 		}
 		if surrogated > 0 {
-- 
2.43.0


From 3f4137646914e3a3350d77c759acaf66e404a27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:55:24 +0000
Subject: [PATCH 28/37] fix: tty10 corrupted characters that were read in two
 parts

A character of several bytes can be divided by the end of the read buffer.
---
 tty10/main.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/tty10/main.go b/tty10/main.go
index 9b46d6d..2b664c3 100644
--- a/tty10/main.go
+++ b/tty10/main.go
@@ -59,6 +59,17 @@ func (M *Tty) getKey() ([]byte, error) {
 	return buffer[:n], nil
 }
 
+// endsWithFullRune returns false when the rest of the last character of b has
+// not been read yet.
+func endsWithFullRune(b []byte) bool {
+	for i := 1; i <= len(b) && i < utf8.UTFMax; i++ {
+		if tail := b[len(b)-i:]; utf8.RuneStart(tail[0]) {
+			return utf8.FullRune(tail)
+		}
+	}
+	return true
+}
+
 func (M *Tty) GetKey() (string, error) {
 	if len(M.buf) <= 0 {
 		var err error
@@ -66,6 +77,17 @@ func (M *Tty) GetKey() (string, error) {
 		if err != nil || len(M.buf) <= 0 {
 			return "", err
 		}
+		for !endsWithFullRune(M.buf) {
+			more, err := M.getKey()
+			if err != nil {
+				M.buf = nil
+				return "", err
+			}
+			if len(more) <= 0 {
+				break
+			}
+			M.buf = append(M.buf, more...)
+		}
 	}
 	var result string
 	r, size := utf8.DecodeRune(M.buf)
-- 
2.43.0


From 7047d74ab26aee0d83a122d5db0e7d761170fe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:58:33 +0000
Subject: [PATCH 29/37] fix: the key names CTRL_DOWN and M_BACKSPACE meant
 other keys

Binding them changed the cursor key down and the backspace key.
---
 keys/naming.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keys/naming.go b/keys/naming.go
index f01d15d..d177246 100644
--- a/keys/naming.go
+++ b/keys/naming.go
@@ -9,7 +9,7 @@ var NameToCode = map[string]Code{
 	"CLEAR":       Clear,
 	"CTRL":        Ctrl,
 	"CTRL_BREAK":  CtrlBreak,
-	"CTRL_DOWN":   Down,
+	"CTRL_DOWN":   CtrlDown,
 	"C_A":         CtrlA,
 	"C_B":         CtrlB,
 	"C_C":         CtrlC,
@@ -77,7 +77,7 @@ var NameToCode = map[string]Code{
 	"LEFT":        Left,
 	"M_A":         AltA,
 	"M_B":         AltB,
-	"M_BACKSPACE": Backspace,
+	"M_BACKSPACE": ALTBackspace,
 	"M_C":         AltC,
 	"M_D":         AltD,
 	"M_E":         AltE,
-- 
2.43.0


From bb1ea57840750dd99e15613ec67137a230ac0904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:06 +0000
Subject: [PATCH 30/37] fix: prompts with titles ended by ST left the line in
 the wrong place

The width of the prompt was taken from a text from which everything after
ESC]...ESC\ was cut, because only BEL was known to end a title. Sequences
like ESC 7 took the next letter of the prompt with them, and a BEL outside
a title counted as two columns.
---
 main.go | 61 +++++++++++++++++++++++++++++++++++----------------------
 1 file changed, 38 insertions(+), 23 deletions(-)

diff --git a/main.go b/main.go
index 4b93f4d..59ba6b6 100644
--- a/main.go
+++ b/main.go
@@ -78,36 +78,51 @@ func (editor *Editor) LookupCommand(key string) Command {
 	return SelfInserter(key)
 }
 
+// escapeSequenceLength returns the length of the escape sequence s begins with.
+func escapeSequenceLength(s string) int {
+	if len(s) < 2 {
+		return len(s)
+	}
+	i := 2
+	switch s[1] {
+	case '[': // ESC[...
+		for i < len(s) && (s[i] < '@' || '~' < s[i]) {
+			i++
+		}
+	case ']', 'P', 'X', '^', '_': // ESC]...\x07 or ESC]...ESC\
+		for i < len(s) && s[i] != '\007' {
+			if s[i] == '\x1B' && i+1 < len(s) && s[i+1] == '\\' {
+				i++
+				break
+			}
+			i++
+		}
+	default:
+		for i = 1; i < len(s) && ' ' <= s[i] && s[i] <= '/'; {
+			i++
+		}
+	}
+	if i >= len(s) {
+		return len(s)
+	}
+	return i + 1
+}
+
 func cutEscapeSequenceAndOldLine(s string) string {
 	buffer := make([]byte, 0, len(s)*2)
-	esc := false           // for ESC[...
-	titleSequence := false // for ESC]...\x07
 	for i, end := 0, len(s); i < end; i++ {
-		r := s[i]
-		switch r {
+		switch r := s[i]; r {
 		case '\r', '\n':
 			buffer = buffer[:0]
 		case '\x1B':
-			esc = true
-		default:
-			if titleSequence {
-				if r == '\007' {
-					titleSequence = false
-					esc = false
-				}
-			} else if esc {
-				if r == ']' {
-					titleSequence = true
-				} else if ('A' <= r && r <= 'Z') || ('a' <= r && r <= 'z') {
-					esc = false
-				}
-			} else if r == '\b' {
-				if lastRune, siz := utf8.DecodeLastRune(buffer); lastRune != utf8.RuneError {
-					buffer = buffer[:len(buffer)-siz]
-				}
-			} else {
-				buffer = append(buffer, r)
+			i += escapeSequenceLength(s[i:]) - 1
+		case '\b':
+			if lastRune, siz := utf8.DecodeLastRune(buffer); lastRune != utf8.RuneError {
+				buffer = buffer[:len(buffer)-siz]
 			}
+		case '\a':
+		default:
+			buffer = append(buffer, r)
 		}
 	}
 	return string(buffer)
-- 
2.43.0


From ffcc94262f93a72959e9cc48ee031eba3e015a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:06 +0000
Subject: [PATCH 31/37] fix: prompts with tabs left the line in the wrong place

The terminal moves to the next multiple of eight columns on a tab, but the
prompt's width was computed with tab stops at every fourth column. Other
control characters take no column at all.
---
 main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 59ba6b6..a228905 100644
--- a/main.go
+++ b/main.go
@@ -120,9 +120,13 @@ func cutEscapeSequenceAndOldLine(s string) string {
 			if lastRune, siz := utf8.DecodeLastRune(buffer); lastRune != utf8.RuneError {
 				buffer = buffer[:len(buffer)-siz]
 			}
-		case '\a':
+		case '\t':
+			w, _ := moji.MojiWidthAndCountInString(string(buffer))
+			buffer = append(buffer, "        "[w%8:]...)
 		default:
-			buffer = append(buffer, r)
+			if r >= ' ' && r != '\x7F' {
+				buffer = append(buffer, r)
+			}
 		}
 	}
 	return string(buffer)
-- 
2.43.0


From 858f024cc9f1ac8ae690fc185852e2741fbc571e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:43 +0000
Subject: [PATCH 32/37] fix: resizing drew the line over the prompt or below it

When the prompt was too wide at the start, a resize printed it on the row
of the line and then drew the line over it. When it became too wide, the
view got a negative width. A first prompt line wider than the new terminal
pushed the line one row down, because all lines of the prompt were printed
on the row of the last one.
---
 buffer.go   |  5 +++--
 main.go     | 38 +++++++++++++++++++++++++++++++-------
 repaints.go | 25 +++++++++++++++----------
 3 files changed, 49 insertions(+), 19 deletions(-)

diff --git a/buffer.go b/buffer.go
index d1be74c..4222925 100644
--- a/buffer.go
+++ b/buffer.go
@@ -34,8 +34,9 @@ type Buffer struct {
 	Buffer          []Cell
 	suffix          []Moji
 	ViewStart       int
-	termWidth       int // == topColumn + termWidth + forbiddenWidth
-	topColumn       int // == width of Prompt
+	termWidth       int  // == topColumn + termWidth + forbiddenWidth
+	topColumn       int  // == width of Prompt
+	promptAbove     bool // Prompt is too wide and not on the line being edited
 	historyPointer  int
 	undoes          []*_Undo
 	pending         string
diff --git a/main.go b/main.go
index a228905..98426fb 100644
--- a/main.go
+++ b/main.go
@@ -132,17 +132,41 @@ func cutEscapeSequenceAndOldLine(s string) string {
 	return string(buffer)
 }
 
-func (editor *Editor) callPromptWriter() (int, error) {
+// lastLineOfPrompt returns the last line of the prompt s. The escape sequences
+// of the lines before are kept because they may concern the last line also.
+func lastLineOfPrompt(s string) string {
+	var buffer strings.Builder
+	i := 0
+	for end := strings.LastIndexAny(s, "\r\n") + 1; i < end; {
+		n := 1
+		if s[i] == '\x1B' {
+			n = escapeSequenceLength(s[i:])
+			buffer.WriteString(s[i : i+n])
+		}
+		i += n
+	}
+	buffer.WriteString(s[i:])
+	return buffer.String()
+}
+
+func (editor *Editor) prompt() string {
 	if editor.PromptWriter == nil {
-		_, err := editor.Out.WriteString("\n> ")
-		return 2, err
+		return "\n> "
 	}
 	var buffer strings.Builder
 	editor.PromptWriter(&buffer)
-	prompt := buffer.String()
-	_, err := editor.Out.WriteString(prompt)
+	return buffer.String()
+}
+
+func promptWidth(prompt string) int {
 	w, _ := moji.MojiWidthAndCountInString(cutEscapeSequenceAndOldLine(prompt))
-	return int(w), err
+	return int(w)
+}
+
+func (editor *Editor) callPromptWriter() (int, error) {
+	prompt := editor.prompt()
+	_, err := editor.Out.WriteString(prompt)
+	return promptWidth(prompt), err
 }
 
 // Init replaces nil fields to default values.
@@ -194,7 +218,6 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 	onResize := func(w int) {
 		editor.mutex.Lock()
 		buffer.termWidth = w
-		buffer.ResetViewStart()
 		buffer.RepaintLastLine()
 		editor.mutex.Unlock()
 	}
@@ -219,6 +242,7 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 		// ViewWidth is too narrow to edit.
 		io.WriteString(buffer.Out, "\n")
 		buffer.topColumn = 0
+		buffer.promptAbove = true
 	}
 	buffer.InsertString(0, editor.Default)
 	if buffer.Cursor > len(buffer.Buffer) {
diff --git a/repaints.go b/repaints.go
index dcfdeb8..4215220 100644
--- a/repaints.go
+++ b/repaints.go
@@ -107,10 +107,12 @@ func (B *Buffer) RepaintAfterPrompt() {
 func (B *Buffer) RepaintAll() {
 	B.Out.Flush()
 	B.topColumn, _ = B.callPromptWriter()
+	B.promptAbove = false
 	if B.topColumn >= B.termWidth-3 {
 		// ViewWidth is too narrow to edit.
 		B.Out.WriteString("\n")
 		B.topColumn = 0
+		B.promptAbove = true
 	}
 	B.ResetViewStart()
 	B.repaint()
@@ -120,16 +122,19 @@ func (B *Buffer) RepaintAll() {
 // IMPORTANT: This method requires setting valid Editor.PromptWriter
 func (B *Buffer) RepaintLastLine() {
 	B.Out.Flush()
-	var prompt string
-	if B.PromptWriter == nil {
-		prompt = "\r> "
-	} else {
-		var buffer strings.Builder
-		buffer.WriteByte('\r')
-		B.PromptWriter(&buffer)
-		prompt = buffer.String()
-		prompt = strings.ReplaceAll(prompt, "\n", "\r")
+	B.Out.WriteByte('\r')
+	if !B.promptAbove {
+		prompt := lastLineOfPrompt(B.prompt())
+		B.topColumn = promptWidth(prompt)
+		if B.topColumn >= B.termWidth-3 {
+			// ViewWidth is too narrow to edit.
+			B.eraseline()
+			prompt += "\n"
+			B.topColumn = 0
+			B.promptAbove = true
+		}
+		B.Out.WriteString(prompt)
 	}
-	B.Out.WriteString(prompt)
+	B.ResetViewStart()
 	B.repaint()
 }
-- 
2.43.0


From 07cbac5258258d4d963edd4674cbbedc5f952d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:06 +0000
Subject: [PATCH 33/37] fix: resizing raced with the editor's output and went
 on after its end

The notification of a resize could write to the output while the editor
was starting or sending its output, its own output stayed in the buffer
until the next key, and a notification that came after the end of the
input still drew the line. A command that panicked left the mutex locked,
so that the editor could not be used again.
---
 main.go | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/main.go b/main.go
index 98426fb..da4c6be 100644
--- a/main.go
+++ b/main.go
@@ -197,6 +197,13 @@ func (editor *Editor) Init() {
 	}
 }
 
+// waitKey reads one key with the mutex unlocked.
+func (editor *Editor) waitKey() (string, error) {
+	editor.mutex.Unlock()
+	defer editor.mutex.Lock()
+	return editor.Tty.GetKey()
+}
+
 // ReadLine calls LineEditor
 // - ENTER typed -> returns TEXT and nil
 // - CTRL-C typed -> returns "" and readline.CtrlC
@@ -215,11 +222,20 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 		suffix:         nil, // moji.StringToMoji("$"),
 	}
 
+	// active is true while the line may be repainted. It and notifiedWidth
+	// are guarded by editor.mutex.
+	active := false
+	notifiedWidth := 0
+
 	onResize := func(w int) {
 		editor.mutex.Lock()
-		buffer.termWidth = w
-		buffer.RepaintLastLine()
-		editor.mutex.Unlock()
+		defer editor.mutex.Unlock()
+		notifiedWidth = w
+		if active {
+			buffer.termWidth = w
+			buffer.RepaintLastLine()
+			buffer.Out.Flush()
+		}
 	}
 
 	if err := editor.Tty.Open(onResize); err != nil {
@@ -233,6 +249,17 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 		return "", err
 	}
 
+	// The mutex is locked from here except while waiting for a key.
+	editor.mutex.Lock()
+	defer func() {
+		active = false
+		editor.mutex.Unlock()
+	}()
+	active = true
+	if notifiedWidth > 0 {
+		buffer.termWidth = notifiedWidth
+	}
+
 	buffer.topColumn, err = editor.callPromptWriter()
 	if err != nil {
 		// unable to get prompt-string.
@@ -252,12 +279,11 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 
 	io.WriteString(buffer.Out, ansiCursorOn)
 	for {
-		key, err := buffer.GetKey()
+		buffer.Out.Flush()
+		key, err := editor.waitKey()
 		if err != nil {
 			return "", err
 		}
-		editor.mutex.Lock()
-
 		f := editor.LookupCommand(key)
 
 		io.WriteString(buffer.Out, ansiCursorOff)
@@ -283,7 +309,6 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 			buffer.Out.Flush()
 
 			result := buffer.String()
-			editor.mutex.Unlock()
 			if rc == ENTER {
 				return result, nil
 			} else if rc == INTR {
@@ -292,6 +317,5 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 				return result, io.EOF
 			}
 		}
-		editor.mutex.Unlock()
 	}
 }
-- 
2.43.0


From 69c03935c797c0660cc4e54378740a0e2b80d320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:06 +0000
Subject: [PATCH 34/37] fix: the terminal stayed open when its size was not
 available

The editor does not close a terminal that could not be opened, so the
default terminal has to undo what it did before it reports the error.
---
 tty8.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tty8.go b/tty8.go
index 2365ac7..9c34fa0 100644
--- a/tty8.go
+++ b/tty8.go
@@ -19,6 +19,7 @@ func (m *_Tty) Open(onResize func(int)) error {
 	}
 	_lastw, _, err := m.TTY.Size()
 	if err != nil {
+		m.Close()
 		return fmt.Errorf("go-tty.Size: %w", err)
 	}
 	ws := m.TTY.SIGWINCH()
-- 
2.43.0


From 028e83e6807b47db04e745d60504787e29a1657c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:07 +0000
Subject: [PATCH 35/37] fix: the search prompt stayed on the screen when a key
 could not be read

---
 isearch.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/isearch.go b/isearch.go
index 6f1f11d..fe20df7 100644
--- a/isearch.go
+++ b/isearch.go
@@ -52,7 +52,8 @@ func cmdISearchBackward(ctx context.Context, this *Buffer) Result {
 		io.WriteString(this.Out, ansiCursorOn)
 		key, err := this.GetKey()
 		if err != nil {
-			println(err.Error())
+			this.GotoHead()
+			this.repaint()
 			return CONTINUE
 		}
 		io.WriteString(this.Out, ansiCursorOff)
-- 
2.43.0


From b427171796bd17c12c09236d228193250833fa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:13 +0000
Subject: [PATCH 36/37] fix: closing the polling terminal twice panicked

---
 tty10/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tty10/main.go b/tty10/main.go
index 2b664c3..58de747 100644
--- a/tty10/main.go
+++ b/tty10/main.go
@@ -105,6 +105,7 @@ func (M *Tty) Close() error {
 	if M.done != nil {
 		M.done <- struct{}{}
 		close(M.done)
+		M.done = nil
 	}
 	if M.disable != nil {
 		M.disable()
-- 
2.43.0


From fc1be88cb46e1b0751ee8e77e5d7271def57abf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:27 +0000
Subject: [PATCH 37/37] fix: deleting before the beginning of the line panicked

Deletions that exceed the end of the line are ignored; those that start
before its beginning were not.
---
 buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buffer.go b/buffer.go
index 4222925..7364cea 100644
--- a/buffer.go
+++ b/buffer.go
@@ -153,7 +153,7 @@ func (B *Buffer) InsertString(pos int, s string) int {
 // It returns the width to clear the end of line.
 // It does not update screen.
 func (B *Buffer) Delete(pos int, n int) WidthT {
-	if n <= 0 || len(B.Buffer) < pos+n {
+	if pos < 0 || n <= 0 || len(B.Buffer) < pos+n {
 		return 0
 	}
 	u := &_Undo{
-- 
2.43.0

