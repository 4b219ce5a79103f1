From 9579c1d6dba4a1486ce6fde0f9ca25a6d3e81d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:24 +0000
Subject: [PATCH 01/46] fix: report read errors and accept long lines when
 parsing po files

The scanner treated every error of the underlying reader, including lines
longer than 64 KB, as the end of the file, so that a truncated catalog was
returned without an error.
---
 catalog/po/parser.go  | 11 ++++++++++-
 catalog/po/scanner.go | 17 ++++++++++++-----
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 5f18bab..6b3dd81 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -62,11 +62,20 @@ func (p *Parser) Parse(r io.Reader) (*File, error) {
 
 	// special case, empty file
 	if tok, _ := p.scan(); tok == eof {
+		if err := p.s.readError(); err != nil {
+			return nil, err
+		}
 		return nil, errors.New("po file cannot be empty")
 	}
 	p.unscan()
 
-	return p.parseFile()
+	file, err := p.parseFile()
+	if readErr := p.s.readError(); readErr != nil {
+		// The content could not be read completely
+		return nil, readErr
+	}
+
+	return file, err
 }
 
 func (p *Parser) parseFile() (*File, error) {
diff --git a/catalog/po/scanner.go b/catalog/po/scanner.go
index 6261675..49e10ba 100644
--- a/catalog/po/scanner.go
+++ b/catalog/po/scanner.go
@@ -3,6 +3,7 @@ package po
 import (
 	"bufio"
 	"io"
+	"math"
 	"regexp"
 	"strings"
 )
@@ -39,8 +40,11 @@ type scanner struct {
 
 func newScanner(r io.Reader) *scanner {
 	// content = bytes.ReplaceAll(content, []byte("\r"), []byte(""))
+	lineScanner := bufio.NewScanner(r)
+	// The length of a line is not limited
+	lineScanner.Buffer(nil, math.MaxInt)
 	return &scanner{
-		lineScanner: bufio.NewScanner(r),
+		lineScanner: lineScanner,
 	}
 }
 
@@ -184,7 +188,7 @@ func (s *scanner) scanComment(line string) (token, string) {
 func (s *scanner) scanWhitespace() (tok token, lit string) {
 	for {
 		line, err := s.read()
-		if err == io.EOF {
+		if err != nil {
 			break
 		}
 
@@ -206,15 +210,18 @@ func (s *scanner) read() (string, error) {
 	}
 
 	if !s.lineScanner.Scan() {
+		if err := s.lineScanner.Err(); err != nil {
+			return "", err
+		}
 		return "", io.EOF
 	}
-	if s.lineScanner.Err() != nil {
-		return "", s.lineScanner.Err()
-	}
 
 	s.pos++
 	return s.lineScanner.Text(), nil
 }
 
+// readError returns the first error that occurred while reading, except io.EOF.
+func (s *scanner) readError() error { return s.lineScanner.Err() }
+
 func (s *scanner) currentLine() string { return s.lineScanner.Text() }
 func (s *scanner) unread()             { s.n = 1 }
-- 
2.43.0


From 33f6865a571aba725a5f8d185549e5cfc6e080e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:42 +0000
Subject: [PATCH 02/46] fix: read po translations without a space in front of
 the text

msgstr"x" and msgstr[0]"x" lost their opening quote (and indices with more
than one digit were cut wrongly), and continuation lines were appended to
the highest possible instead of the last read plural form.
---
 catalog/po/parser.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 6b3dd81..33dacdf 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -162,6 +162,8 @@ loop:
 		}
 	}
 
+	// Index of the last plural form read
+	lastIdx := 0
 	for {
 		tok, lit := p.scan()
 		switch tok {
@@ -187,7 +189,7 @@ loop:
 		case msgIDPluralLine:
 			msg.IDPlural += DecodePoString(lit)
 		case msgStr:
-			line := lit[7:] // msgstr
+			line := lit[6:] // msgstr
 			msg.Str[0] = DecodePoString(line)
 		case msgStrLine:
 			msg.Str[0] += DecodePoString(lit)
@@ -200,13 +202,10 @@ loop:
 				return nil, fmt.Errorf("po file contains an invalid index for a plural translation (line %d)", p.s.pos)
 			}
 
-			line := lit[10:] // msgstr[x]
+			line := lit[right+1:] // msgstr[x]
 			msg.Str[idx] = DecodePoString(line)
+			lastIdx = idx
 		case msgStrPluralLine:
-			lastIdx := len(msg.Str) - 1
-			if lastIdx < 0 {
-				return nil, p.buildPosError()
-			}
 			msg.Str[lastIdx] += DecodePoString(lit)
 		default:
 			return nil, p.buildPosError()
-- 
2.43.0


From bb1c63e3c6da43aad49d46c0e6a0ef308ef12696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 03/46] fix: keep po entries and comments that are not
 separated by a blank line

The first comment line after an entry was dropped together with its flags,
and a message that directly followed another one (or, when comments are
ignored, one only separated by comments) replaced its predecessor.
---
 catalog/po/parser.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 33dacdf..000a1b8 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -164,21 +164,38 @@ loop:
 
 	// Index of the last plural form read
 	lastIdx := 0
+	var hasContext, hasID bool
 	for {
 		tok, lit := p.scan()
 		switch tok {
 		case failure:
 			return nil, p.buildPosError()
-		case eof, whitespace, commentTranslator, commentExtracted, commentReference, commentFlags,
-			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine:
+		case eof, whitespace:
 			// Message completed
 			return msg, nil
+		case commentTranslator, commentExtracted, commentReference, commentFlags,
+			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine:
+			// Message completed, the comment belongs to the next message
+			p.unscan()
+			return msg, nil
 		case msgContext:
+			if hasContext || hasID {
+				// Message completed, the next message starts without a blank line
+				p.unscan()
+				return msg, nil
+			}
+			hasContext = true
 			line := lit[8:] // msgctxt
 			msg.Context = DecodePoString(line)
 		case msgContextLine:
 			msg.Context += DecodePoString(lit)
 		case msgID:
+			if hasID {
+				// Message completed, the next message starts without a blank line
+				p.unscan()
+				return msg, nil
+			}
+			hasID = true
 			line := lit[6:] // msgid
 			msg.ID = DecodePoString(line)
 		case msgIDLine:
-- 
2.43.0


From 62b83b0c54f98f143e26ec1c45d52f6dd9281522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:32 +0000
Subject: [PATCH 04/46] fix: ignore blank lines within po entries and drop
 comments of obsolete ones

A blank line between the flags and the msgid of an entry dropped the flags,
so that fuzzy translations were used, a blank line in front of msgstr dropped
the translation, and the flags of an obsolete entry were applied to the
following entry.
---
 catalog/po/parser.go  | 23 ++++++++++++++++++++---
 catalog/po/scanner.go |  6 ++++--
 catalog/po/token.go   |  1 +
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 000a1b8..0a31268 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -147,7 +147,7 @@ loop:
 	for {
 		tok, _ := p.scan()
 		switch tok {
-		case commentTranslator, commentExtracted, commentReference, commentFlags,
+		case commentTranslator, commentExtracted, commentReference, commentFlags, commentObsolete,
 			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine:
 			p.unscan()
 			comment, err := p.parseComment()
@@ -170,10 +170,16 @@ loop:
 		switch tok {
 		case failure:
 			return nil, p.buildPosError()
-		case eof, whitespace:
+		case eof:
 			// Message completed
 			return msg, nil
-		case commentTranslator, commentExtracted, commentReference, commentFlags,
+		case whitespace:
+			if hasID && len(msg.Str) > 0 {
+				// Message completed
+				return msg, nil
+			}
+			// Blank lines within a message have no meaning
+		case commentTranslator, commentExtracted, commentReference, commentFlags, commentObsolete,
 			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine:
 			// Message completed, the comment belongs to the next message
 			p.unscan()
@@ -206,11 +212,17 @@ loop:
 		case msgIDPluralLine:
 			msg.IDPlural += DecodePoString(lit)
 		case msgStr:
+			if !hasID {
+				return nil, p.buildPosError()
+			}
 			line := lit[6:] // msgstr
 			msg.Str[0] = DecodePoString(line)
 		case msgStrLine:
 			msg.Str[0] += DecodePoString(lit)
 		case msgStrPlural:
+			if !hasID {
+				return nil, p.buildPosError()
+			}
 			left := strings.Index(lit, "[")
 			right := strings.Index(lit, "]")
 			// We do not need to check if there is a negative index, because the scanner already checks it.
@@ -240,6 +252,11 @@ func (p *Parser) parseComment() (*Comment, error) {
 			return nil, io.EOF
 		case failure:
 			return nil, p.buildPosError()
+		case whitespace:
+			// Blank lines between a comment and its message have no meaning
+		case commentObsolete:
+			// The comments read so far belong to an obsolete message
+			comment = NewComment()
 		case commentTranslator:
 			line = strings.TrimSpace(line[1:]) // #
 			if comment.Translator != "" {
diff --git a/catalog/po/scanner.go b/catalog/po/scanner.go
index 49e10ba..54ce37e 100644
--- a/catalog/po/scanner.go
+++ b/catalog/po/scanner.go
@@ -146,8 +146,8 @@ func (s *scanner) scanComment(line string) (token, string) {
 
 	if s.ignoreComments {
 		switch line[1] {
-		case ',':
-			// Flag comments will always be read
+		case ',', '~':
+			// Flag comments and obsolete messages, which can have their own flags, will always be read
 			break
 		default:
 			return s.scan()
@@ -161,6 +161,8 @@ func (s *scanner) scanComment(line string) (token, string) {
 		return commentReference, line
 	case ',':
 		return commentFlags, line
+	case '~':
+		return commentObsolete, line
 	case '|':
 		// #| "..."
 		if rePrevMsgContextComments.MatchString(line) {
diff --git a/catalog/po/token.go b/catalog/po/token.go
index f655731..274e23f 100644
--- a/catalog/po/token.go
+++ b/catalog/po/token.go
@@ -15,6 +15,7 @@ const (
 	commentPrevMsgID                    // "#| msgid"
 	commentPrevMsgIDLine                // "#| \"prev-msg\""
 	commentPrevUnknown                  // "#| \"unknown\""
+	commentObsolete                     // "#~ msgid \"obsolete\""
 	msgContext                          // "msgctxt"
 	msgContextLine                      // "\"more context\""
 	msgID                               // "msgid"
-- 
2.43.0


From 765514e7e16cbe14ad2b0c978723dfee82f061c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 05/46] fix: skip po comments without recursion

Every skipped comment line took a stack frame, so that a file with millions
of comment lines exceeded the maximum stack size and ended the process.
---
 catalog/po/scanner.go | 51 ++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/catalog/po/scanner.go b/catalog/po/scanner.go
index 54ce37e..b055796 100644
--- a/catalog/po/scanner.go
+++ b/catalog/po/scanner.go
@@ -49,34 +49,40 @@ func newScanner(r io.Reader) *scanner {
 }
 
 func (s *scanner) scan() (tok token, lit string) {
-	line, err := s.read()
 	defer func() {
 		s.lastToken = tok
 	}()
 
-	if err != nil {
-		return eof, ""
-	}
+	for {
+		line, err := s.read()
+		if err != nil {
+			return eof, ""
+		}
 
-	// Short path for better performance
-	if len(line) == 0 {
-		return s.scanWhitespace()
-	}
+		// Short path for better performance
+		if len(line) == 0 {
+			return s.scanWhitespace()
+		}
 
-	line = strings.TrimSpace(line)
-	if len(line) == 0 {
-		return s.scanWhitespace()
-	}
+		line = strings.TrimSpace(line)
+		if len(line) == 0 {
+			return s.scanWhitespace()
+		}
 
-	if line[0] == '#' {
-		return s.scanComment(line)
-	}
+		if line[0] == '#' {
+			if tokk, l := s.scanComment(line); tokk != none {
+				return tokk, l
+			}
+			// Skip the comment
+			continue
+		}
 
-	if tokk, l := s.scanMessage(line); tokk != none {
-		return tokk, l
-	}
+		if tokk, l := s.scanMessage(line); tokk != none {
+			return tokk, l
+		}
 
-	return failure, line
+		return failure, line
+	}
 }
 
 func (s *scanner) scanMessage(line string) (token, string) {
@@ -125,13 +131,14 @@ func (s *scanner) scanMessage(line string) (token, string) {
 	return none, line
 }
 
+// scanComment returns none if the comment should be skipped.
 func (s *scanner) scanComment(line string) (token, string) {
 	lineLen := len(line)
 
 	// comment without content
 	if lineLen == 1 {
 		if s.ignoreComments {
-			return s.scan()
+			return none, line
 		}
 		return commentTranslator, line
 	}
@@ -140,7 +147,7 @@ func (s *scanner) scanComment(line string) (token, string) {
 	if lineLen == 2 {
 		switch line[1] {
 		case '.', ':', ',', '|':
-			return s.scan()
+			return none, line
 		}
 	}
 
@@ -150,7 +157,7 @@ func (s *scanner) scanComment(line string) (token, string) {
 			// Flag comments and obsolete messages, which can have their own flags, will always be read
 			break
 		default:
-			return s.scan()
+			return none, line
 		}
 	}
 
-- 
2.43.0


From 1a6a6c016e047a9afd35c5dcc188fe8ba7e4ffc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:14 +0000
Subject: [PATCH 06/46] fix: write and read control characters in po strings

---
 catalog/po/po_string.go | 52 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 5 deletions(-)

diff --git a/catalog/po/po_string.go b/catalog/po/po_string.go
index fde2ddf..57782cb 100644
--- a/catalog/po/po_string.go
+++ b/catalog/po/po_string.go
@@ -3,6 +3,8 @@ package po
 import (
 	"bytes"
 	"fmt"
+	"math"
+	"strconv"
 	"strings"
 	"unicode"
 	"unicode/utf8"
@@ -258,8 +260,6 @@ var safeSet = [utf8.RuneSelf]bool{
 	'\u007f': true,
 }
 
-var hex = "0123456789abcdef"
-
 func escapePoString(s string) string {
 	data := make([]byte, 0, len(s))
 	buf := bytes.NewBuffer(data)
@@ -293,9 +293,11 @@ func escapePoString(s string) string {
 			case '\v':
 				buf.WriteByte('v')
 			default:
-				buf.WriteByte('x')
-				buf.WriteByte(hex[b>>4])
-				buf.WriteByte(hex[hex[b&0xF]])
+				// An octal escape sequence has a fixed length, so that the characters
+				// following it can never be mistaken for a part of it.
+				buf.WriteByte('0' + b>>6)
+				buf.WriteByte('0' + b>>3&7)
+				buf.WriteByte('0' + b&7)
 			}
 			i++
 			start = i
@@ -349,6 +351,7 @@ func unescapePoBytes(s []byte) []byte {
 
 	b := make([]byte, len(s)+2*utf8.UTFMax)
 	w := copy(b, s[0:r])
+	hasRawBytes := false
 	for r < len(s) {
 		// Out of room? Can only happen if s is full of
 		// malformed UTF-8 and we're replacing each
@@ -361,9 +364,20 @@ func unescapePoBytes(s []byte) []byte {
 		switch c := s[r]; {
 		case c == '\\':
 			if r+1 >= len(s) {
+				// A single backslash at the end
+				b[w] = c
+				r++
+				w++
 				break
 			}
 			r++
+			if char, size := decodeNumericEscape(s[r:]); size > 0 {
+				hasRawBytes = hasRawBytes || char >= utf8.RuneSelf
+				b[w] = char
+				r += size
+				w++
+				break
+			}
 			switch s[r] {
 			case 'a':
 				b[w] = '\a'
@@ -415,5 +429,33 @@ func unescapePoBytes(s []byte) []byte {
 			w += utf8.EncodeRune(b[w:], rr)
 		}
 	}
+	if hasRawBytes {
+		return bytes.ToValidUTF8(b[0:w], []byte(string(utf8.RuneError)))
+	}
 	return b[0:w]
 }
+
+// decodeNumericEscape decodes the part of an octal (\ooo) or hexadecimal (\xhh) escape sequence
+// that follows the backslash. It returns the number of bytes read, 0 if there is no such sequence.
+func decodeNumericEscape(s []byte) (char byte, size int) {
+	if s[0] == 'x' {
+		if len(s) < 3 {
+			return 0, 0
+		}
+		val, err := strconv.ParseUint(string(s[1:3]), 16, 8)
+		if err != nil {
+			return 0, 0
+		}
+		return byte(val), 3
+	}
+
+	val := 0
+	for size < 3 && size < len(s) && s[size] >= '0' && s[size] <= '7' {
+		val = val*8 + int(s[size]-'0')
+		size++
+	}
+	if val > math.MaxUint8 {
+		return byte(val / 8), 2
+	}
+	return byte(val), size
+}
-- 
2.43.0


From 1aa6e7b58df45193568782b5c20de05b8ff1e2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:51 +0000
Subject: [PATCH 07/46] fix: ignore blank lines in po entries completely and
 reject repeated translations

---
 catalog/po/parser.go  | 10 +++++-----
 catalog/po/scanner.go |  5 ++++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 0a31268..41cbc96 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -174,10 +174,6 @@ loop:
 			// Message completed
 			return msg, nil
 		case whitespace:
-			if hasID && len(msg.Str) > 0 {
-				// Message completed
-				return msg, nil
-			}
 			// Blank lines within a message have no meaning
 		case commentTranslator, commentExtracted, commentReference, commentFlags, commentObsolete,
 			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine:
@@ -212,7 +208,7 @@ loop:
 		case msgIDPluralLine:
 			msg.IDPlural += DecodePoString(lit)
 		case msgStr:
-			if !hasID {
+			if _, ok := msg.Str[0]; ok || !hasID {
 				return nil, p.buildPosError()
 			}
 			line := lit[6:] // msgstr
@@ -231,6 +227,10 @@ loop:
 				return nil, fmt.Errorf("po file contains an invalid index for a plural translation (line %d)", p.s.pos)
 			}
 
+			if _, ok := msg.Str[idx]; ok {
+				return nil, p.buildPosError()
+			}
+
 			line := lit[right+1:] // msgstr[x]
 			msg.Str[idx] = DecodePoString(line)
 			lastIdx = idx
diff --git a/catalog/po/scanner.go b/catalog/po/scanner.go
index b055796..49c800e 100644
--- a/catalog/po/scanner.go
+++ b/catalog/po/scanner.go
@@ -50,7 +50,10 @@ func newScanner(r io.Reader) *scanner {
 
 func (s *scanner) scan() (tok token, lit string) {
 	defer func() {
-		s.lastToken = tok
+		// Blank lines within a text have no meaning
+		if tok != whitespace {
+			s.lastToken = tok
+		}
 	}()
 
 	for {
-- 
2.43.0


From 985909530e5622721b2472f76c0e31f1ddef5a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:37 +0000
Subject: [PATCH 08/46] fix: keep detached po comments out of messages and read
 references with spaces and colons

---
 catalog/po/parser.go | 56 +++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 41cbc96..760ddca 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -253,7 +253,8 @@ func (p *Parser) parseComment() (*Comment, error) {
 		case failure:
 			return nil, p.buildPosError()
 		case whitespace:
-			// Blank lines between a comment and its message have no meaning
+			// A comment followed by a blank line does not belong to a message
+			comment = NewComment()
 		case commentObsolete:
 			// The comments read so far belong to an obsolete message
 			comment = NewComment()
@@ -294,29 +295,8 @@ func (p *Parser) parseComment() (*Comment, error) {
 		case commentReference:
 			line = strings.TrimSpace(line[2:]) // #:
 
-			rawReferences := strings.Split(line, " ")
-			for _, rawRef := range rawReferences {
-				rawRef = strings.TrimSpace(rawRef)
-				colonIdx := strings.Index(rawRef, ":")
-				if colonIdx <= 0 {
-					// no line number
-					ref := &Reference{
-						Path: rawRef,
-						Line: -1,
-					}
-					comment.References = append(comment.References, ref)
-					continue
-				}
-
-				lineNumber, err := strconv.Atoi(rawRef[colonIdx+1:])
-				if err != nil {
-					lineNumber = -1
-				}
-				ref := &Reference{
-					Path: rawRef[:colonIdx],
-					Line: lineNumber,
-				}
-				comment.References = append(comment.References, ref)
+			for _, rawRef := range strings.Fields(line) {
+				comment.References = append(comment.References, parseReference(rawRef))
 			}
 		default:
 			p.unscan()
@@ -325,6 +305,34 @@ func (p *Parser) parseComment() (*Comment, error) {
 	}
 }
 
+// parseReference parses a reference of the form path, path:line or path:line:column.
+func parseReference(rawRef string) *Reference {
+	path, line, ok := cutLastNumber(rawRef)
+	if !ok {
+		// no line number
+		return &Reference{Path: rawRef, Line: -1}
+	}
+
+	// The path can also contain colons, only the numbers at the end do not belong to it
+	if p, l, hasColumn := cutLastNumber(path); hasColumn {
+		return &Reference{Path: p, Line: l, Column: line}
+	}
+	return &Reference{Path: path, Line: line}
+}
+
+// cutLastNumber splits a text of the form text:number.
+func cutLastNumber(s string) (before string, number int, ok bool) {
+	idx := strings.LastIndex(s, ":")
+	if idx <= 0 {
+		return s, 0, false
+	}
+	number, err := strconv.Atoi(s[idx+1:])
+	if err != nil {
+		return s, 0, false
+	}
+	return s[:idx], number, true
+}
+
 func (p *Parser) parseHeader(msg *Message) (*Header, error) {
 	header := &Header{}
 	lines := strings.Split(msg.Str[0], "\n")
-- 
2.43.0


From 50a8a487b6ded9a9a2c2b4f8496c9db209fbe2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:00 +0000
Subject: [PATCH 09/46] fix: write po headers, previous texts and single plural
 forms without loss and in a fixed order

---
 catalog/po/encoder.go | 86 +++++++++++++++++++++++--------------------
 catalog/po/scanner.go |  2 +-
 2 files changed, 48 insertions(+), 40 deletions(-)

diff --git a/catalog/po/encoder.go b/catalog/po/encoder.go
index 97406cb..8af8c07 100644
--- a/catalog/po/encoder.go
+++ b/catalog/po/encoder.go
@@ -2,6 +2,7 @@ package po
 
 import (
 	"bytes"
+	"cmp"
 	"fmt"
 	"io"
 	"maps"
@@ -137,8 +138,8 @@ func (enc *Encoder) encodeHeader(buff *bytes.Buffer, h *Header) {
 		{HeaderXGenerator, h.XGenerator},
 	}
 
-	for k, v := range h.UnknownFields {
-		headers = append(headers, headerEntry{k, v})
+	for _, k := range slices.Sorted(maps.Keys(h.UnknownFields)) {
+		headers = append(headers, headerEntry{k, h.UnknownFields[k]})
 	}
 
 	if !enc.writeEmptyHeader {
@@ -164,9 +165,9 @@ msgstr ""
 			continue
 		}
 		buff.WriteRune('"')
-		buff.WriteString(header.key)
+		buff.WriteString(escapePoString(header.key))
 		buff.WriteString(": ")
-		buff.WriteString(header.value)
+		buff.WriteString(escapePoString(header.value))
 		buff.WriteString("\\n\"\n")
 	}
 }
@@ -219,6 +220,25 @@ func (enc *Encoder) encodeComment(buff *bytes.Buffer, c *Comment) {
 		buff.WriteString(strings.Join(c.Flags, ", "))
 		buff.WriteString("\n")
 	}
+
+	enc.encodePrevious(buff, "msgctxt", c.PrevMsgContext)
+	enc.encodePrevious(buff, "msgid", c.PrevMsgID)
+}
+
+func (enc *Encoder) encodePrevious(buff *bytes.Buffer, keyword, text string) {
+	if text == "" {
+		return
+	}
+
+	for i, line := range strings.Split(EncodePoString(text, enc.wrapWidth), "\n") {
+		buff.WriteString("#| ")
+		if i == 0 {
+			buff.WriteString(keyword)
+			buff.WriteString(" ")
+		}
+		buff.WriteString(line)
+		buff.WriteString("\n")
+	}
 }
 
 func (enc *Encoder) encodeMessage(buff *bytes.Buffer, m *Message) {
@@ -234,7 +254,8 @@ func (enc *Encoder) encodeMessage(buff *bytes.Buffer, m *Message) {
 	buff.WriteString(EncodePoString(m.ID, enc.wrapWidth))
 	buff.WriteString("\n")
 
-	hasPlural := m.IDPlural != "" || len(m.Str) > 1
+	_, hasSingular := m.Str[0]
+	hasPlural := m.IDPlural != "" || len(m.Str) > 1 || (len(m.Str) == 1 && !hasSingular)
 	if hasPlural {
 		buff.WriteString("msgid_plural ")
 		buff.WriteString(EncodePoString(m.IDPlural, enc.wrapWidth))
@@ -258,7 +279,11 @@ func (enc *Encoder) encodeTranslations(buff *bytes.Buffer, plural bool, orig map
 	if plural {
 		if len(m) == 1 {
 			// Plural needs at least two entries
-			m[1] = `""`
+			if _, ok := m[0]; ok {
+				m[1] = `""`
+			} else {
+				m[0] = `""`
+			}
 		}
 
 		keys := slices.Sorted(maps.Keys(m))
@@ -272,46 +297,29 @@ func (enc *Encoder) encodeTranslations(buff *bytes.Buffer, plural bool, orig map
 	}
 }
 
+// DefaultSortFunction sorts messages by their references, messages without references come first.
+// Messages with the same references are sorted by context and ID.
 func DefaultSortFunction(a *Message, b *Message) int {
-	if a.Comment != nil && b.Comment != nil {
-		a.Comment.sort()
-		b.Comment.sort()
-
-		for i := 0; i < len(a.Comment.References); i++ {
-			if i >= len(b.Comment.References) {
-				break
-			}
-			if c := strings.Compare(a.Comment.References[i].Path, b.Comment.References[i].Path); c != 0 {
-				return c
-			}
-			if c, k := a.Comment.References[i].Line, b.Comment.References[i].Line; c != k {
-				if c > k {
-					return 1
-				} else {
-					return -1
-				}
-			}
-			if c, k := a.Comment.References[i].Column, b.Comment.References[i].Column; c != k {
-				if c > k {
-					return 1
-				} else {
-					return -1
-				}
-			}
-
-			if c, k := a.Comment.References[i].Path, b.Comment.References[i].Path; c != "" && k != "" {
-				return strings.Compare(c, k)
-			}
-		}
+	if c := slices.CompareFunc(sortedReferences(a), sortedReferences(b), compareReferences); c != 0 {
+		return c
 	}
 
 	if c := strings.Compare(a.Context, b.Context); c != 0 {
 		return c
 	}
 
-	if c := strings.Compare(a.ID, b.ID); c != 0 {
-		return c
+	return strings.Compare(a.ID, b.ID)
+}
+
+func sortedReferences(m *Message) []*Reference {
+	if m.Comment == nil {
+		return nil
 	}
 
-	return 0
+	m.Comment.sort()
+	return m.Comment.References
+}
+
+func compareReferences(a, b *Reference) int {
+	return cmp.Or(strings.Compare(a.Path, b.Path), cmp.Compare(a.Line, b.Line), cmp.Compare(a.Column, b.Column))
 }
diff --git a/catalog/po/scanner.go b/catalog/po/scanner.go
index 49c800e..82c08c2 100644
--- a/catalog/po/scanner.go
+++ b/catalog/po/scanner.go
@@ -149,7 +149,7 @@ func (s *scanner) scanComment(line string) (token, string) {
 	// special comment without content
 	if lineLen == 2 {
 		switch line[1] {
-		case '.', ':', ',', '|':
+		case ':', ',', '|':
 			return none, line
 		}
 	}
-- 
2.43.0


From 8795221585c8b2012bb591a4dca3c6272a81fcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:32 +0000
Subject: [PATCH 10/46] fix: consult the fallback language only once for
 plurals

---
 localizer.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/localizer.go b/localizer.go
index 319489e..8e319cc 100644
--- a/localizer.go
+++ b/localizer.go
@@ -109,7 +109,9 @@ func (l *Localizer) HasDomain(domain string) bool {
 // Domains return a list of all domains for which a catalog was found.
 func (l *Localizer) Domains() []string {
 	keys := maps.Keys(l.locale.domainCatalogs)
-	return slices.AppendSeq(make([]string, 0, len(l.locale.domainCatalogs)), keys)
+	domains := slices.AppendSeq(make([]string, 0, len(l.locale.domainCatalogs)), keys)
+	slices.Sort(domains)
+	return domains
 }
 
 // HasLocale returns whether a matching locale has been found and message translation can take place.
@@ -324,11 +326,14 @@ func (l *Localizer) lookupPluralTranslation(domain string, ctx localize.Context,
 	}
 
 	errA := err
-	t, err = l.bundle.fallbackLocale.lookupPluralTranslation(domain, ctx, singular, plural, n, vars...)
-	if err == nil {
-		return t, errA
+	if l.locale.language != l.bundle.fallbackLocale.language {
+		t, err = l.bundle.fallbackLocale.lookupPluralTranslation(domain, ctx, singular, plural, n, vars...)
+		if err == nil {
+			return t, errA
+		}
 	}
 
+	// The source locale always returns a text and never an error
 	t, _ = l.bundle.sourceLocale.lookupPluralTranslation(domain, ctx, singular, plural, n, vars...)
 	return t, errA
 }
-- 
2.43.0


From 94de1f943bd78748dbc633e8e7e5d718e9be8a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:32 +0000
Subject: [PATCH 11/46] fix: initialize the printer before it is used and load
 domains in a fixed order

---
 bundle.go | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/bundle.go b/bundle.go
index 8c31461..f13c487 100644
--- a/bundle.go
+++ b/bundle.go
@@ -46,6 +46,9 @@ type bundleBuilder struct {
 	languageMatcherBuilder LanguageMatcherBuilder
 	domainLoaders          map[string]Loader
 	setupActions           []setupAction
+
+	// catalogs contains the loaded catalogs of every language, the source language has none.
+	catalogs map[language.Tag]map[string]catalog.Catalog
 }
 
 // A Bundle is the central place to load and manage translations.
@@ -90,6 +93,7 @@ func NewBundle(opts ...BundleOption) (*Bundle, error) {
 
 		domainLoaders: make(map[string]Loader),
 		setupActions:  make([]setupAction, 0),
+		catalogs:      make(map[language.Tag]map[string]catalog.Catalog),
 	}
 
 	for _, opt := range opts {
@@ -112,8 +116,17 @@ func NewBundle(opts ...BundleOption) (*Bundle, error) {
 		}
 	}
 
-	builder.languageMatcher = builder.languageMatcherBuilder(builder.languages)
-	builder.printer.Init(builder.languages)
+	builder.languageMatcher = builder.languageMatcherBuilder(slices.Clone(builder.languages))
+	builder.printer.Init(slices.Clone(builder.languages))
+
+	// The print functions are only available after the printer has been initialized
+	for _, lang := range builder.languages {
+		if lang == builder.sourceLanguage {
+			builder.locales[lang] = buildSourceLocale(builder.Bundle, lang)
+		} else {
+			builder.locales[lang] = buildLocale(builder.Bundle, lang, builder.catalogs[lang])
+		}
+	}
 
 	if sourceLocale, hasSource := builder.locales[builder.sourceLanguage]; hasSource {
 		builder.sourceLocale = sourceLocale
@@ -138,9 +151,7 @@ func (b *Bundle) Domains() []string { return slices.Clone(b.domains) }
 func (b *Bundle) CanLocalize() bool { return len(b.locales) > 0 && len(b.domains) > 0 }
 
 // SupportedLanguages returns all languages for which a catalog was found for at least one domain.
-func (b *Bundle) SupportedLanguages() []language.Tag {
-	return slices.AppendSeq(make([]language.Tag, 0, len(b.locales)), maps.Keys(b.locales))
-}
+func (b *Bundle) SupportedLanguages() []language.Tag { return slices.Clone(b.languages) }
 
 // IsLanguageSupported indicates whether a language can be translated.
 // The check is done by the bundle's matcher and therefore languages that are not returned by
@@ -187,21 +198,20 @@ func (b *bundleBuilder) createLocale(optional bool, lang language.Tag) error {
 		return newMissingLanguageError(lang)
 	}
 
-	if lang == b.sourceLanguage {
-		sourceLocale := buildSourceLocale(b.Bundle, b.sourceLanguage)
-		b.locales[lang] = sourceLocale
-		b.languages = append(b.languages, lang)
+	if _, isCached := b.catalogs[lang]; isCached {
 		return nil
 	}
 
-	if _, isCached := b.locales[lang]; isCached {
+	if lang == b.sourceLanguage {
+		b.catalogs[lang] = nil
+		b.languages = append(b.languages, lang)
 		return nil
 	}
 
 	catalogs := make(map[string]catalog.Catalog, len(b.domainLoaders))
 
-	for domain, domainLoader := range b.domainLoaders {
-		cat, errD := domainLoader.Load(lang, domain)
+	for _, domain := range slices.Sorted(maps.Keys(b.domainLoaders)) {
+		cat, errD := b.domainLoaders[domain].Load(lang, domain)
 		if errD != nil {
 			var notFoundErr *ErrNotFound
 			if errors.As(errD, &notFoundErr) {
@@ -226,8 +236,7 @@ func (b *bundleBuilder) createLocale(optional bool, lang language.Tag) error {
 		return newMissingLanguageError(lang)
 	}
 
-	langLocale := buildLocale(b.Bundle, lang, catalogs)
-	b.locales[lang] = langLocale
+	b.catalogs[lang] = catalogs
 	b.languages = append(b.languages, lang)
 	return nil
 }
-- 
2.43.0


From df510f2b4c02a1f3d981aa8a3d0d53210d3ba97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:33 +0000
Subject: [PATCH 12/46] fix: return complete gettext messages, name the domain
 in errors and reject a null json catalog

---
 catalog/json_decoder.go | 2 +-
 catalog/po.go           | 2 +-
 catalog/po_decoder.go   | 1 +
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/catalog/json_decoder.go b/catalog/json_decoder.go
index 8eb7f42..ff30804 100644
--- a/catalog/json_decoder.go
+++ b/catalog/json_decoder.go
@@ -16,7 +16,7 @@ func NewJSONDecoder() *JSONDecoder { return &JSONDecoder{} }
 
 func (JSONDecoder) Decode(lang language.Tag, domain string, data []byte) (Catalog, error) {
 	cat := NewJSONCatalog(lang, domain)
-	if err := json.Unmarshal(data, &cat); err != nil {
+	if err := json.Unmarshal(data, cat); err != nil {
 		return nil, err
 	}
 
diff --git a/catalog/po.go b/catalog/po.go
index dbe8df8..4b9ad8f 100644
--- a/catalog/po.go
+++ b/catalog/po.go
@@ -67,7 +67,7 @@ func (c *GettextCatalog) Messages() PoLookupMap {
 		cpy[ctx] = make(map[string]*GettextMessage, len(c.lookupMap[ctx]))
 
 		for msgID := range c.lookupMap[ctx] {
-			msg := cpy[ctx][msgID]
+			msg := c.lookupMap[ctx][msgID]
 			cpy[ctx][msgID] = msg.Clone()
 		}
 	}
diff --git a/catalog/po_decoder.go b/catalog/po_decoder.go
index 6edc53b..ed2ed80 100644
--- a/catalog/po_decoder.go
+++ b/catalog/po_decoder.go
@@ -127,6 +127,7 @@ func buildGettextCatalog(file *po.File, lang language.Tag, domain string, useCLD
 
 	cat := &GettextCatalog{
 		language:  lang,
+		domain:    domain,
 		lookupMap: lookupMap,
 	}
 
-- 
2.43.0


From e2946d8ab16d7481c5262ad2e77c3f6cf1cd6360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:02 +0000
Subject: [PATCH 13/46] fix: parse and evaluate plural forms like C and exactly
 for large numbers

---
 catalog/poplural/ast/compile.go |  57 +++++++--
 catalog/poplural/ast/parser.go  | 201 +++++++++++++++-----------------
 catalog/poplural/ast/scanner.go |   6 +-
 catalog/poplural/builtin.go     |   7 +-
 catalog/poplural/rule.go        |  24 ++--
 internal/cast/number.go         |  51 ++++++++
 internal/util/compare.go        |   7 --
 7 files changed, 210 insertions(+), 143 deletions(-)
 delete mode 100644 internal/util/compare.go

diff --git a/catalog/poplural/ast/compile.go b/catalog/poplural/ast/compile.go
index d6aacce..d536f2a 100644
--- a/catalog/poplural/ast/compile.go
+++ b/catalog/poplural/ast/compile.go
@@ -21,7 +21,8 @@ func compileNode(node Node) string {
 		then := compileNode(v.T)
 		other := compileNode(v.F)
 
-		if len(cond) > 1 && (!strings.HasPrefix(cond, "(") || !strings.HasSuffix(cond, ")")) {
+		_, nested := v.Cond.(*QuestionMarkExpr)
+		if nested || len(cond) > 1 && (!strings.HasPrefix(cond, "(") || !strings.HasSuffix(cond, ")")) {
 			cond = "(" + cond + ")"
 		}
 		if len(then) > 1 {
@@ -33,26 +34,62 @@ func compileNode(node Node) string {
 
 		return fmt.Sprintf("%s ? %s : %s", cond, then, other)
 	case *BinaryExpr:
+		x, y := compileNode(v.X), compileNode(v.Y)
+
+		// Operators that bind less strongly than this one have to be enclosed in parentheses.
+		// For operators of the same strength, this applies only to the right side.
+		prec := precedence(v)
+		if v.Op == LogicalOr {
+			prec = 1
+		}
+		if precedence(v.X) < prec {
+			x = "(" + x + ")"
+		}
+		if p := precedence(v.Y); p < prec || (p == prec && v.Op != LogicalAnd && v.Op != LogicalOr) {
+			y = "(" + y + ")"
+		}
+
 		switch v.Type() {
 		case LogicalAnd:
-			return compileNode(v.X) + " && " + compileNode(v.Y)
+			return x + " && " + y
 		case LogicalOr:
-			return fmt.Sprintf("(%s || %s)", compileNode(v.X), compileNode(v.Y))
+			return fmt.Sprintf("(%s || %s)", x, y)
 		case Equal:
-			return compileNode(v.X) + " == " + compileNode(v.Y)
+			return x + " == " + y
 		case NotEqual:
-			return compileNode(v.X) + " != " + compileNode(v.Y)
+			return x + " != " + y
 		case Greater:
-			return compileNode(v.X) + " > " + compileNode(v.Y)
+			return x + " > " + y
 		case GreaterOrEqual:
-			return compileNode(v.X) + " >= " + compileNode(v.Y)
+			return x + " >= " + y
 		case Less:
-			return compileNode(v.X) + " < " + compileNode(v.Y)
+			return x + " < " + y
 		case LessOrEqual:
-			return compileNode(v.X) + " <= " + compileNode(v.Y)
+			return x + " <= " + y
 		case Reminder:
-			return compileNode(v.X) + " % " + compileNode(v.Y)
+			return x + " % " + y
 		}
 	}
 	return ""
 }
+
+// precedence returns how strongly the operator of a compiled node binds.
+func precedence(node Node) int {
+	switch v := node.(type) {
+	case *QuestionMarkExpr:
+		return 0
+	case *BinaryExpr:
+		switch v.Op {
+		case LogicalAnd:
+			return 1
+		case Equal, NotEqual:
+			return 2
+		case Greater, GreaterOrEqual, Less, LessOrEqual:
+			return 3
+		case Reminder:
+			return 4
+		}
+	}
+	// Values, the operand and the logical or, which is always enclosed in parentheses
+	return 5
+}
diff --git a/catalog/poplural/ast/parser.go b/catalog/poplural/ast/parser.go
index 2b439e4..a989de0 100644
--- a/catalog/poplural/ast/parser.go
+++ b/catalog/poplural/ast/parser.go
@@ -3,6 +3,7 @@ package ast
 import (
 	"errors"
 	"fmt"
+	"slices"
 	"strconv"
 	"strings"
 )
@@ -17,8 +18,12 @@ type parser struct {
 	lastToken   Token  // last read Token
 	lastLiteral string // last read literal
 	n           int    // buffer size (max=1)
+	depth       int    // current nesting depth
 }
 
+// maxDepth limits the nesting of expressions, which are parsed and evaluated recursively.
+const maxDepth = 5000
+
 func MustParse(rule string) *Forms {
 	f, err := Parse(rule)
 	if err != nil {
@@ -50,7 +55,11 @@ func (p *parser) Parse() (*Forms, error) {
 	if tok, lit := p.scanIgnoreWhitespace(); tok != Value {
 		return nil, fmt.Errorf("po parser: found %q, expected '=' after nplurals", lit)
 	} else {
-		forms.NPlurals, _ = strconv.Atoi(lit)
+		nplurals, err := strconv.Atoi(lit)
+		if err != nil {
+			return nil, fmt.Errorf("po parser: invalid number of plural forms %q", lit)
+		}
+		forms.NPlurals = nplurals
 	}
 
 	if tok, lit := p.scanIgnoreWhitespace(); tok != semicolon {
@@ -76,6 +85,11 @@ func (p *parser) Parse() (*Forms, error) {
 
 	forms.Root = n
 
+	// The semicolon at the end is optional
+	if p.lastToken == eof {
+		return forms, nil
+	}
+
 	if p.lastToken != semicolon {
 		return nil, fmt.Errorf("po parser: found %q, expected ';' at end", p.lastLiteral)
 	}
@@ -89,6 +103,12 @@ func (p *parser) Parse() (*Forms, error) {
 }
 
 func (p *parser) expression() (Node, error) {
+	p.depth++
+	defer func() { p.depth-- }()
+	if p.depth > maxDepth {
+		return nil, errors.New("po parser: expression is nested too deeply")
+	}
+
 	n, err := p.logicalOrExpression()
 	if err != nil {
 		return nil, err
@@ -129,149 +149,103 @@ func (p *parser) expression() (Node, error) {
 }
 
 func (p *parser) logicalOrExpression() (Node, error) {
-	ln, err := p.logicalAndExpression()
+	operands, err := p.operands(LogicalOr, p.logicalAndExpression)
 	if err != nil {
 		return nil, err
 	}
 
-	if p.lastToken == LogicalOr {
-		if errScan := p.scanNext(); errScan != nil {
-			return nil, errScan
-		}
-
-		rn, errRn := p.logicalOrExpression() // right
-		if errRn != nil {
-			return nil, errRn
-		}
-
-		orNode := &BinaryExpr{
-			X:  ln,
-			Op: LogicalOr,
-			Y:  rn,
-		}
-
-		if rn.Type() == LogicalOr {
-			rnNode := rn.(*BinaryExpr)
-			orNode.Y = rnNode.X
-			rnNode.X = orNode
-			return rnNode, nil
-		}
-
-		return orNode, nil
+	last := len(operands) - 1
+	if last == 0 {
+		return operands[0], nil
 	}
 
-	return ln, nil
+	// The operator is associative, the order in which the operands are combined
+	// corresponds to the order used by the built-in rules.
+	right := operands[last]
+	if or, ok := right.(*BinaryExpr); ok && or.Op == LogicalOr {
+		operands[last] = or.X
+		right = or.Y
+		last++
+	}
+	left := operands[last-1]
+	for i := last - 2; i >= 0; i-- {
+		left = &BinaryExpr{X: operands[i], Op: LogicalOr, Y: left}
+	}
+	return &BinaryExpr{X: left, Op: LogicalOr, Y: right}, nil
 }
 
 func (p *parser) logicalAndExpression() (Node, error) {
-	ln, err := p.equalityExpression() // left
+	operands, err := p.operands(LogicalAnd, p.equalityExpression)
 	if err != nil {
 		return nil, err
 	}
 
-	if p.lastToken == LogicalAnd {
-		if errScan := p.scanNext(); errScan != nil {
-			return nil, errScan
-		}
+	n := operands[0]
+	for _, right := range operands[1:] {
+		n = &BinaryExpr{X: n, Op: LogicalAnd, Y: right}
+	}
+	return n, nil
+}
 
-		rn, errRn := p.logicalAndExpression()
-		if errRn != nil {
-			return nil, errRn
+// operands reads the operands of a chain of the same operator.
+func (p *parser) operands(op Token, next func() (Node, error)) ([]Node, error) {
+	var nodes []Node
+	for {
+		n, err := next()
+		if err != nil {
+			return nil, err
 		}
 
-		andNode := &BinaryExpr{
-			X:  ln,
-			Op: LogicalAnd,
-			Y:  rn,
+		nodes = append(nodes, n)
+		if len(nodes) > maxDepth {
+			return nil, errors.New("po parser: expression is too long")
 		}
-
-		if rn.Type() == LogicalAnd {
-			rnNode := rn.(*BinaryExpr)
-			andNode.Y = rnNode.X
-			rnNode.X = andNode
-			return rnNode, nil
+		if p.lastToken != op {
+			return nodes, nil
 		}
 
-		return andNode, nil
-	}
-
-	return ln, nil
-}
-
-func (p *parser) equalityExpression() (Node, error) {
-	n, err := p.relationalExpression()
-	if err != nil {
-		return nil, err
-	}
-
-	if p.lastToken == Equal || p.lastToken == NotEqual {
-		compareNode := &BinaryExpr{Op: p.lastToken}
-
 		if errScan := p.scanNext(); errScan != nil {
 			return nil, errScan
 		}
-
-		re, errRe := p.relationalExpression()
-		if errRe != nil {
-			return nil, errRe
-		}
-
-		compareNode.X = n
-		compareNode.Y = re
-		return compareNode, nil
 	}
+}
 
-	return n, nil
+func (p *parser) equalityExpression() (Node, error) {
+	return p.leftAssociative(p.relationalExpression, Equal, NotEqual)
 }
 
 func (p *parser) relationalExpression() (Node, error) {
-	n, err := p.multiplicativeExpression()
-	if err != nil {
-		return nil, err
-	}
-
-	if p.lastToken == Greater || p.lastToken == Less || p.lastToken == GreaterOrEqual || p.lastToken == LessOrEqual {
-		compareNode := &BinaryExpr{Op: p.lastToken}
-
-		if errScan := p.scanNext(); errScan != nil {
-			return nil, errScan
-		}
-
-		me, errMe := p.multiplicativeExpression()
-		if errMe != nil {
-			return nil, errMe
-		}
-
-		compareNode.X = n
-		compareNode.Y = me
-		return compareNode, nil
-	}
-
-	return n, nil
+	return p.leftAssociative(p.multiplicativeExpression, Greater, Less, GreaterOrEqual, LessOrEqual)
 }
 
 func (p *parser) multiplicativeExpression() (Node, error) {
-	n, err := p.pmExpression()
+	return p.leftAssociative(p.pmExpression, Reminder)
+}
+
+func (p *parser) leftAssociative(next func() (Node, error), ops ...Token) (Node, error) {
+	n, err := next()
 	if err != nil {
 		return nil, err
 	}
 
-	if p.lastToken == Reminder {
+	for i := 0; slices.Contains(ops, p.lastToken); i++ {
+		if i > maxDepth {
+			return nil, errors.New("po parser: expression is too long")
+		}
+
+		binNode := &BinaryExpr{X: n, Op: p.lastToken}
+
 		if errScan := p.scanNext(); errScan != nil {
 			return nil, errScan
 		}
 
-		pm, errPm := p.pmExpression()
-		if errPm != nil {
-			return nil, errPm
+		right, errR := next()
+		if errR != nil {
+			return nil, errR
 		}
 
-		modNode := &BinaryExpr{
-			X:  n,
-			Op: Reminder,
-			Y:  pm,
-		}
-		return modNode, nil
+		binNode.Y = right
+		n = binNode
 	}
 
 	return n, nil
@@ -280,13 +254,16 @@ func (p *parser) multiplicativeExpression() (Node, error) {
 func (p *parser) pmExpression() (Node, error) {
 	switch p.lastToken {
 	case Operand:
-		if errScan := p.scanNext(); errScan != nil {
+		if errScan := p.scanOptional(); errScan != nil {
 			return nil, errScan
 		}
 		return &OperandExpr{}, nil
 	case Value:
-		value, _ := strconv.ParseInt(p.lastLiteral, 10, 64)
-		if errScan := p.scanNext(); errScan != nil {
+		value, errV := strconv.ParseInt(p.lastLiteral, 10, 64)
+		if errV != nil {
+			return nil, fmt.Errorf("po parser: invalid number %q", p.lastLiteral)
+		}
+		if errScan := p.scanOptional(); errScan != nil {
 			return nil, errScan
 		}
 		return &ValueExpr{Value: value}, nil
@@ -304,7 +281,7 @@ func (p *parser) pmExpression() (Node, error) {
 			return nil, fmt.Errorf("found %q, expected )", p.lastLiteral)
 		}
 
-		if errScan := p.scanNext(); errScan != nil {
+		if errScan := p.scanOptional(); errScan != nil {
 			return nil, errScan
 		}
 
@@ -321,6 +298,14 @@ func (p *parser) scanNext() error {
 	return nil
 }
 
+// scanOptional scans the next token, which may be missing because the expression can be complete.
+func (p *parser) scanOptional() error {
+	if tok, lit := p.scanIgnoreWhitespace(); tok == failure {
+		return fmt.Errorf("po parser: found invalid %q", lit)
+	}
+	return nil
+}
+
 func (p *parser) scan() (tok Token, lit string) {
 	if p.n != 0 {
 		p.n = 0
diff --git a/catalog/poplural/ast/scanner.go b/catalog/poplural/ast/scanner.go
index b5320b6..578ff17 100644
--- a/catalog/poplural/ast/scanner.go
+++ b/catalog/poplural/ast/scanner.go
@@ -113,7 +113,7 @@ func (s *scanner) scanNumber() (tok Token, lit string) {
 		ch := s.read()
 		if ch == scannerEOF {
 			break
-		} else if !isDigit(ch) && ch != '_' {
+		} else if !isDigit(ch) {
 			s.unread()
 			break
 		}
@@ -160,11 +160,11 @@ func (s *scanner) read() rune {
 
 func (s *scanner) unread() { _ = s.r.UnreadRune() }
 
-func isWhitespace(ch rune) bool { return ch == ' ' || ch == '\t' || ch == '\n' }
+func isWhitespace(ch rune) bool { return ch == ' ' || (ch >= '\t' && ch <= '\r') }
 
 func isLetter(ch rune) bool { return (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') }
 
 func isDigit(ch rune) bool { return ch >= '0' && ch <= '9' }
 
 // eof represents a marker rune for the end of the reader.
-var scannerEOF = rune(0)
+const scannerEOF = rune(-1)
diff --git a/catalog/poplural/builtin.go b/catalog/poplural/builtin.go
index 50037ea..baab734 100644
--- a/catalog/poplural/builtin.go
+++ b/catalog/poplural/builtin.go
@@ -19,20 +19,19 @@ func ForLanguage(lang language.Tag) (PluralFunc, bool) {
 }
 
 func pluralRuleForLanguage(lang language.Tag) (*Rule, bool) {
-	n := lang
-	for !n.IsRoot() {
+	for n := lang; !n.IsRoot(); n = n.Parent() {
 		if rule := getBuiltInForLanguage(n.String()); rule != nil {
 			return rule, true
 		}
+	}
 
+	for n := lang; !n.IsRoot(); n = n.Parent() {
 		base, confidence := n.Base()
 		if confidence >= language.High {
 			if rule := getBuiltInForLanguage(base.String()); rule != nil {
 				return rule, true
 			}
 		}
-
-		n = n.Parent()
 	}
 
 	return getBuiltInForLanguage(fallbackLanguage), false
diff --git a/catalog/poplural/rule.go b/catalog/poplural/rule.go
index 01c7e43..7486268 100644
--- a/catalog/poplural/rule.go
+++ b/catalog/poplural/rule.go
@@ -1,8 +1,6 @@
 package poplural
 
 import (
-	"math"
-
 	"github.com/vorlif/spreak/catalog/poplural/ast"
 	"github.com/vorlif/spreak/internal/cast"
 )
@@ -21,13 +19,12 @@ type Rule struct {
 // If the value is not an integer, it is formatted accordingly.
 // If formatting is not possible, an error is returned.
 func (f *Rule) Evaluate(a any) (int, error) {
-	num, err := cast.ToNumber(a)
+	num, err := cast.ToInteger(a)
 	if err != nil {
 		return 0, err
 	}
 
-	num = math.RoundToEven(math.Abs(num))
-	return f.FormFunc(int64(num)), nil
+	return f.FormFunc(num), nil
 }
 
 // MustParse is like Parse, but panics if the given rule string cannot be parsed.
@@ -40,6 +37,9 @@ func MustParse(raw string) *Rule {
 	return rule
 }
 
+// maxBuiltInLength limits the length of rules for which a built-in function is searched.
+const maxBuiltInLength = 4096
+
 // Parse parses a plural forms header and returns a function to evaluate this header.
 // If for a header there is already a predefined function, this function will be returned.
 // If parsing failed it returns an error.
@@ -50,9 +50,11 @@ func Parse(raw string) (*Rule, error) {
 	}
 
 	// Use of built-in functions, if available
-	compiledRaw := ast.CompileToString(parsed)
-	if rule := getBuiltInForRawRule(compiledRaw); rule != nil {
-		return rule, nil
+	if len(raw) <= maxBuiltInLength {
+		compiledRaw := ast.CompileToString(parsed)
+		if rule := getBuiltInForRawRule(compiledRaw); rule != nil {
+			return rule, nil
+		}
 	}
 
 	f := &Rule{
@@ -82,16 +84,16 @@ func evaluateNode(node ast.Node, num int64) int64 {
 	case *ast.OperandExpr:
 		return num
 	case *ast.QuestionMarkExpr:
-		if evaluateNode(v.Cond, num) == 1 {
+		if evaluateNode(v.Cond, num) != 0 {
 			return evaluateNode(v.T, num)
 		}
 		return evaluateNode(v.F, num)
 	case *ast.BinaryExpr:
 		switch v.Type() {
 		case ast.LogicalAnd:
-			conditionTrue = evaluateNode(v.X, num) == 1 && evaluateNode(v.Y, num) == 1
+			conditionTrue = evaluateNode(v.X, num) != 0 && evaluateNode(v.Y, num) != 0
 		case ast.LogicalOr:
-			conditionTrue = evaluateNode(v.X, num) == 1 || evaluateNode(v.Y, num) == 1
+			conditionTrue = evaluateNode(v.X, num) != 0 || evaluateNode(v.Y, num) != 0
 		case ast.Equal:
 			conditionTrue = evaluateNode(v.X, num) == evaluateNode(v.Y, num)
 		case ast.NotEqual:
diff --git a/internal/cast/number.go b/internal/cast/number.go
index 0934cf7..e90a988 100644
--- a/internal/cast/number.go
+++ b/internal/cast/number.go
@@ -3,6 +3,7 @@ package cast
 import (
 	"errors"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 )
@@ -50,6 +51,12 @@ func ToNumber(n any) (float64, error) {
 		return res, nil
 	}
 
+	switch reflect.TypeOf(n).Kind() {
+	case reflect.Ptr, reflect.Func, reflect.Chan, reflect.UnsafePointer:
+		// The formatted values would be addresses
+		return 0, fmt.Errorf("unable to cast value of type %T to float64", n)
+	}
+
 	if num, errC := ToNumber(fmt.Sprintf("%d", n)); errC == nil {
 		return num, nil
 	}
@@ -57,6 +64,50 @@ func ToNumber(n any) (float64, error) {
 	return ToNumber(fmt.Sprintf("%v", n))
 }
 
+// ToInteger returns the integer that is closest to the absolute value of a number.
+// Integers are not subject to the limited precision of floating point numbers.
+func ToInteger(n any) (int64, error) {
+	n = Indirect(n)
+	if n == nil {
+		return 0, errors.New("number is nil")
+	}
+
+	switch v := reflect.ValueOf(n); v.Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return absolute(v.Int(), n)
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
+		if v.Uint() > math.MaxInt64 {
+			return 0, fmt.Errorf("number %v is too large", n)
+		}
+		return int64(v.Uint()), nil
+	case reflect.String:
+		if num, err := strconv.ParseInt(v.String(), 10, 64); err == nil {
+			return absolute(num, n)
+		}
+	}
+
+	num, err := ToNumber(n)
+	if err != nil {
+		return 0, err
+	}
+
+	num = math.RoundToEven(math.Abs(num))
+	if !(num < 1<<63) {
+		return 0, fmt.Errorf("number %v is too large", n)
+	}
+	return int64(num), nil
+}
+
+func absolute(num int64, n any) (int64, error) {
+	if num < 0 {
+		num = -num
+	}
+	if num < 0 {
+		return 0, fmt.Errorf("number %v is too large", n)
+	}
+	return num, nil
+}
+
 // Indirect returns the value, after dereferencing as many times
 // as necessary to reach the base type (or nil).
 // From html/template/content.go
diff --git a/internal/util/compare.go b/internal/util/compare.go
deleted file mode 100644
index 966c700..0000000
--- a/internal/util/compare.go
+++ /dev/null
@@ -1,7 +0,0 @@
-package util
-
-import "math"
-
-func FloatEqual(a, b float64) bool {
-	return math.Abs(a-b) <= 1e-6
-}
-- 
2.43.0


From 0e24489c68160816a38d14c28af70cff7b7db380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:02 +0000
Subject: [PATCH 14/46] fix: select the CLDR plural category of floats,
 negative and large numbers and of regional variants correctly

---
 catalog/cldrplural/ast/parser.go  | 46 ++++++++++++++++++++++--
 catalog/cldrplural/ast/scanner.go |  5 +--
 catalog/cldrplural/builtin.go     |  7 ++--
 catalog/cldrplural/cldr.go        | 56 ++++++++++++++++++-----------
 catalog/cldrplural/evaluation.go  | 59 +++++++++++++++++--------------
 5 files changed, 118 insertions(+), 55 deletions(-)

diff --git a/catalog/cldrplural/ast/parser.go b/catalog/cldrplural/ast/parser.go
index 12030e9..ad8df55 100644
--- a/catalog/cldrplural/ast/parser.go
+++ b/catalog/cldrplural/ast/parser.go
@@ -1,6 +1,7 @@
 package ast
 
 import (
+	"errors"
 	"fmt"
 	"strconv"
 	"strings"
@@ -48,8 +49,17 @@ type parser struct {
 	lastLiteral string
 	// buffer size (max=1)
 	n int
+	// number of nodes created
+	nodes int
 }
 
+const (
+	// maxNodes limits the size of a rule, which is parsed and evaluated recursively.
+	maxNodes = 10000
+	// maxSampleValues limits the number of values of a range of samples.
+	maxSampleValues = 1000
+)
+
 func MustParse(rawRule string) *Rule {
 	r, err := Parse(rawRule)
 	if err != nil {
@@ -147,6 +157,10 @@ func (p *parser) andCondition() (Node, error) {
 }
 
 func (p *parser) relation() (Node, error) {
+	if err := p.countNode(); err != nil {
+		return nil, err
+	}
+
 	expr, err := p.expression()
 	if err != nil {
 		return nil, err
@@ -178,7 +192,7 @@ func (p *parser) expression() (Node, error) {
 		return nil, fmt.Errorf("expected operand, got %q", p.lastLiteral)
 	}
 
-	operandNode := &OperandExpr{Operand: p.lastLiteral}
+	operandNode := &OperandExpr{Operand: strings.ToLower(p.lastLiteral)}
 
 	if errScan := p.scanNext(); errScan != nil {
 		return nil, errScan
@@ -194,6 +208,10 @@ func (p *parser) expression() (Node, error) {
 			return nil, errValue
 		}
 
+		if valueNode.Value == 0 {
+			return nil, errors.New("the remainder of a division by zero is not defined")
+		}
+
 		reminderNode := &ModuloExpr{
 			Op:    operandNode,
 			Value: valueNode.Value,
@@ -210,7 +228,10 @@ func (p *parser) value() (*ValueExpr, error) {
 		return nil, fmt.Errorf("expected value (\\d+), got %q", p.lastLiteral)
 	}
 
-	value, _ := strconv.ParseInt(p.lastLiteral, 10, 64)
+	value, errV := strconv.ParseInt(p.lastLiteral, 10, 64)
+	if errV != nil {
+		return nil, fmt.Errorf("invalid value %q", p.lastLiteral)
+	}
 
 	if errScan := p.scanNext(); errScan != nil {
 		return nil, errScan
@@ -221,6 +242,10 @@ func (p *parser) value() (*ValueExpr, error) {
 
 // range_list = (range | value) (',' range_list)*.
 func (p *parser) rangeList() (*RangeListExpr, error) {
+	if err := p.countNode(); err != nil {
+		return nil, err
+	}
+
 	listNode := &RangeListExpr{}
 
 	switch p.lastToken {
@@ -310,6 +335,9 @@ func (p *parser) samples() ([]string, error) {
 			samples = append(samples, p.lastLiteral)
 		case sampleRange:
 			rangeValues := parseSampleRange(p.lastLiteral)
+			if rangeValues == nil {
+				return nil, fmt.Errorf("invalid range of samples %q", p.lastLiteral)
+			}
 			samples = append(samples, rangeValues...)
 		default:
 			return nil, fmt.Errorf("expected sample, got %q", p.lastLiteral)
@@ -323,6 +351,14 @@ func (p *parser) samples() ([]string, error) {
 	return samples, nil
 }
 
+func (p *parser) countNode() error {
+	p.nodes++
+	if p.nodes > maxNodes {
+		return errors.New("the rule is too long")
+	}
+	return nil
+}
+
 func (p *parser) scanNext() error {
 	if tok, _ := p.scan(); tok == unknown {
 		return fmt.Errorf("unknown token readed %s", p.lastLiteral)
@@ -340,12 +376,18 @@ func (p *parser) scan() (tok Token, lit string) {
 	return
 }
 
+// parseSampleRange returns all values of a range, or nil if the end of the range cannot be reached.
+//
 // sampleRange = sampleValue ('~' sampleValue)?
 // sampleValue = value ('.' digit+)? ([ce] digitPos digit+)?
 func parseSampleRange(sampleRange string) []string {
 	var sampleValues []string // sampleValue, sampleValue, sampleValue, ...
 	if parts := strings.Split(sampleRange, "~"); len(parts) == 2 {
 		for ex := parts[0]; ; ex = increment(ex) {
+			if len(ex) > len(parts[1]) || len(sampleValues) >= maxSampleValues {
+				return nil
+			}
+
 			sampleValues = append(sampleValues, ex)
 			if ex == parts[1] {
 				break
diff --git a/catalog/cldrplural/ast/scanner.go b/catalog/cldrplural/ast/scanner.go
index f47e20e..48e170e 100644
--- a/catalog/cldrplural/ast/scanner.go
+++ b/catalog/cldrplural/ast/scanner.go
@@ -49,6 +49,9 @@ func newScanner(content string) *scanner {
 
 func (s *scanner) Scan() (tok Token, lit string) {
 	lit, errR := s.read()
+	for errR == nil && (lit == "…" || lit == "..." || lit == ".") {
+		lit, errR = s.read()
+	}
 	if errR != nil {
 		return eof, ""
 	}
@@ -70,8 +73,6 @@ func (s *scanner) Scan() (tok Token, lit string) {
 		return And, lit
 	case "or":
 		return Or, lit
-	case "…", "...", ".":
-		return s.Scan()
 	}
 
 	if nextLit, err := s.read(); nextLit == ".." || nextLit == "~" {
diff --git a/catalog/cldrplural/builtin.go b/catalog/cldrplural/builtin.go
index ad17b85..6395495 100644
--- a/catalog/cldrplural/builtin.go
+++ b/catalog/cldrplural/builtin.go
@@ -8,20 +8,19 @@ var fallbackLanguage = "en"
 // ForLanguage returns the set of rules for a language.
 // If no matching language is found, the English rule set and false are returned.
 func ForLanguage(lang language.Tag) (*RuleSet, bool) {
-	n := lang
-	for !n.IsRoot() {
+	for n := lang; !n.IsRoot(); n = n.Parent() {
 		if ruleSet := getBuiltInForLanguage(n.String()); ruleSet != nil {
 			return ruleSet, true
 		}
+	}
 
+	for n := lang; !n.IsRoot(); n = n.Parent() {
 		base, confidence := n.Base()
 		if confidence >= language.High {
 			if ruleSet := getBuiltInForLanguage(base.String()); ruleSet != nil {
 				return ruleSet, true
 			}
 		}
-
-		n = n.Parent()
 	}
 
 	return getBuiltInForLanguage(fallbackLanguage), false
diff --git a/catalog/cldrplural/cldr.go b/catalog/cldrplural/cldr.go
index 201566d..97a2dbc 100644
--- a/catalog/cldrplural/cldr.go
+++ b/catalog/cldrplural/cldr.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"math"
+	"reflect"
 	"strconv"
 	"strings"
 
@@ -94,33 +95,32 @@ func NewOperands(a any) (*Operands, error) {
 		return nil, errors.New("operands value is nil")
 	}
 
-	switch v := a.(type) {
-	case string:
+	if v, ok := a.(string); ok {
 		return newOperandsString(v)
-	case int64:
-		return newOperandsInt(v), nil
-	case int:
-		return newOperandsInt(int64(v)), nil
-	case float32:
-		return newOperandsString(fmt.Sprintf("%v", v))
-	case float64:
-		return newOperandsString(fmt.Sprintf("%v", v))
-	default:
-		num, err := cast.ToNumber(v)
+	}
+
+	switch v := reflect.ValueOf(a); v.Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
+		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
+		i, err := cast.ToInteger(a)
 		if err != nil {
 			return nil, err
 		}
-		return newOperandsString(fmt.Sprintf("%v", num))
+		return &Operands{N: float64(i), I: i}, nil
+	case reflect.Float32:
+		return newOperandsString(strconv.FormatFloat(v.Float(), 'f', -1, 32))
 	}
-}
 
-func newOperandsInt(i int64) *Operands {
-	if i < 0 {
-		i = -i
+	num, err := cast.ToNumber(a)
+	if err != nil {
+		return nil, err
 	}
-	return &Operands{float64(i), i, 0, 0, 0, 0, 0}
+	return newOperandsString(strconv.FormatFloat(num, 'f', -1, 64))
 }
 
+// maxExponent is the largest supported compact decimal exponent.
+const maxExponent = 100
+
 func newOperandsString(raw string) (*Operands, error) {
 	op := &Operands{}
 
@@ -129,6 +129,9 @@ func newOperandsString(raw string) (*Operands, error) {
 		if err != nil {
 			return nil, err
 		}
+		if c < 0 || c > maxExponent {
+			return nil, fmt.Errorf("invalid compact exponent in %q", raw)
+		}
 		op.C = int64(c)
 		raw = shiftDecimalPoint(raw[:cIdx], c)
 	}
@@ -139,9 +142,22 @@ func newOperandsString(raw string) (*Operands, error) {
 	}
 
 	op.N = math.Abs(src)
-	op.I = int64(src)
+	if !(op.N < 1<<63) {
+		return nil, fmt.Errorf("number %q is too large", raw)
+	}
+	op.I = int64(op.N)
+
+	pointIdx := strings.Index(raw, ".")
+	intDigits := raw
+	if pointIdx >= 0 {
+		intDigits = raw[:pointIdx]
+	}
+	// Integers are not subject to the limited precision of floating point numbers
+	if i, err := strconv.ParseInt(strings.TrimLeft(intDigits, "+-"), 10, 64); err == nil {
+		op.I = i
+	}
 
-	if pointIdx := strings.Index(raw, "."); pointIdx >= 0 {
+	if pointIdx >= 0 {
 		fractionDigits := raw[pointIdx+1:]
 		if fractionDigits != "" {
 			op.V = int64(len(fractionDigits))
diff --git a/catalog/cldrplural/evaluation.go b/catalog/cldrplural/evaluation.go
index 22f6271..1b46745 100644
--- a/catalog/cldrplural/evaluation.go
+++ b/catalog/cldrplural/evaluation.go
@@ -2,9 +2,9 @@ package cldrplural
 
 import (
 	"math"
+	"slices"
 
 	"github.com/vorlif/spreak/catalog/cldrplural/ast"
-	"github.com/vorlif/spreak/internal/util"
 )
 
 func MustParseRules(rules map[Category]string) *RuleSet {
@@ -21,30 +21,38 @@ func ParseRules(rawRules map[Category]string) (*RuleSet, error) {
 	categories := make([]Category, 0, len(rawRules))
 	rules := make(map[Category]*ast.Rule)
 
-	for cat, rawRule := range rawRules {
+	for cat := range rawRules {
+		categories = append(categories, cat)
+	}
+	if _, hasOther := rawRules[Other]; !hasOther {
+		categories = append(categories, Other)
+	}
+	slices.Sort(categories)
+
+	for _, cat := range categories {
+		rawRule, hasRule := rawRules[cat]
+		if !hasRule {
+			continue
+		}
+
 		rule, err := ast.Parse(rawRule)
 		if err != nil {
 			return nil, err
 		}
 		rules[cat] = rule
-		categories = append(categories, cat)
 	}
 
-	if _, hasOther := rawRules[Other]; !hasOther {
-		categories = append(categories, Other)
-	}
-
-	formF := func(rules map[Category]*ast.Rule) FormFunc {
-		return func(ops *Operands) Category {
-			for cat, rule := range rules {
-				if evaluate(rule, ops) {
-					return cat
-				}
+	// The rules are evaluated in the order of the categories. The category Other is used
+	// if none of the rules applies.
+	formF := func(ops *Operands) Category {
+		for cat := Zero; cat < Other; cat++ {
+			if rule, hasRule := rules[cat]; hasRule && evaluate(rule, ops) {
+				return cat
 			}
-
-			return Other
 		}
-	}(rules)
+
+		return Other
+	}
 
 	return &RuleSet{Categories: categories, FormFunc: formF}, nil
 }
@@ -147,20 +155,17 @@ func evaluateExpression(node ast.Node, ops *Operands) float64 {
 // isFloatInRange tests whether a float64 value x is within a range [from, to].
 // Multiple ranges can be specified.
 func isFloatInRange(x float64, rangeValues ...int64) bool {
+	// Ranges only contain integers
+	if x != math.Trunc(x) {
+		return false
+	}
+
 	for i := 0; i < len(rangeValues); i += 2 {
 		lower := rangeValues[i]
 		upper := rangeValues[i+1]
 
-		// If the value is not within the range, not every value needs to be checked.
-		if !(x >= float64(lower) && x <= float64(upper)) {
-			continue
-		}
-
-		// Checking each value
-		for v := lower; v <= upper; v++ {
-			if util.FloatEqual(float64(v), x) {
-				return true
-			}
+		if x >= float64(lower) && x <= float64(upper) {
+			return true
 		}
 	}
 
@@ -169,7 +174,7 @@ func isFloatInRange(x float64, rangeValues ...int64) bool {
 
 func isFloatOneOf(target float64, vals ...int64) bool {
 	for _, val := range vals {
-		if util.FloatEqual(float64(val), target) {
+		if float64(val) == target {
 			return true
 		}
 	}
-- 
2.43.0


From c76817848e77c4ea2930dba71d51b2b8f7e2d10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:18 +0000
Subject: [PATCH 15/46] fix: merge po comments without changes, keep messages
 with context and empty id and encode in a fixed order

---
 catalog/po/comment.go | 40 ++++++++++++++++++++--------------------
 catalog/po/encoder.go |  6 +++++-
 catalog/po/file.go    |  5 +++++
 catalog/po/parser.go  | 15 ++++++++++-----
 catalog/po/scanner.go | 11 ++++++++---
 catalog/po/token.go   |  2 ++
 6 files changed, 50 insertions(+), 29 deletions(-)

diff --git a/catalog/po/comment.go b/catalog/po/comment.go
index e4908db..8018afe 100644
--- a/catalog/po/comment.go
+++ b/catalog/po/comment.go
@@ -42,8 +42,7 @@ func NewComment() *Comment {
 }
 
 func (c *Comment) AddReference(ref *Reference) {
-	if len(c.References) == 0 {
-		c.References = []*Reference{ref}
+	if ref == nil || slices.ContainsFunc(c.References, ref.Equal) {
 		return
 	}
 
@@ -68,19 +67,8 @@ func (c *Comment) Merge(other *Comment) {
 		return
 	}
 
-	if other.Translator != "" {
-		left := strings.Split(c.Translator, "\n")
-		right := strings.Split(other.Translator, "\n")
-		res := mergeStringArrays(left, right)
-		c.Translator = strings.TrimSpace(strings.Join(res, "\n"))
-	}
-
-	if other.Extracted != "" {
-		left := strings.Split(c.Extracted, "\n")
-		right := strings.Split(other.Extracted, "\n")
-		res := mergeStringArrays(left, right)
-		c.Extracted = strings.TrimSpace(strings.Join(res, "\n"))
-	}
+	c.Translator = mergeLines(c.Translator, other.Translator)
+	c.Extracted = mergeLines(c.Extracted, other.Extracted)
 
 	c.Flags = mergeStringArrays(c.Flags, other.Flags)
 	c.mergeReferences(other)
@@ -90,11 +78,7 @@ func (c *Comment) Merge(other *Comment) {
 
 func (c *Comment) mergeReferences(other *Comment) {
 	for _, otherRef := range other.References {
-		if slices.ContainsFunc(c.References, func(ref *Reference) bool { return ref.Equal(otherRef) }) {
-			continue
-		}
-
-		c.References = append(c.References, otherRef)
+		c.AddReference(otherRef)
 	}
 }
 
@@ -121,6 +105,22 @@ func (c *Comment) sortReferences() {
 	})
 }
 
+// mergeLines adds the lines which are not yet contained in a text.
+func mergeLines(text, other string) string {
+	lines := strings.Split(text, "\n")
+	count := len(lines)
+	for _, line := range strings.Split(other, "\n") {
+		if !slices.Contains(lines, line) {
+			lines = append(lines, line)
+		}
+	}
+
+	if len(lines) == count {
+		return text
+	}
+	return strings.TrimSpace(strings.Join(lines, "\n"))
+}
+
 func mergeStringArrays(left, right []string) []string {
 	seen := make(map[string]bool)
 	result := make([]string, 0, len(left)+len(right))
diff --git a/catalog/po/encoder.go b/catalog/po/encoder.go
index 8af8c07..344256d 100644
--- a/catalog/po/encoder.go
+++ b/catalog/po/encoder.go
@@ -101,8 +101,12 @@ func (enc *Encoder) encode(f *File) []byte {
 				messages = append(messages, msg)
 			}
 		}
+		// The order must not depend on the iteration order of the maps
+		slices.SortFunc(messages, func(a, b *Message) int {
+			return cmp.Or(strings.Compare(a.Context, b.Context), strings.Compare(a.ID, b.ID))
+		})
 		if enc.sortFunction != nil {
-			slices.SortFunc(messages, enc.sortFunction)
+			slices.SortStableFunc(messages, enc.sortFunction)
 		}
 		for i, msg := range messages {
 			if i > 0 {
diff --git a/catalog/po/file.go b/catalog/po/file.go
index 1409424..816a01c 100644
--- a/catalog/po/file.go
+++ b/catalog/po/file.go
@@ -151,6 +151,11 @@ func (h *Header) Set(key, val string) {
 		if h.UnknownFields == nil {
 			h.UnknownFields = make(map[string]string, 1)
 		}
+		for unknownHeader := range h.UnknownFields {
+			if strings.EqualFold(unknownHeader, key) {
+				delete(h.UnknownFields, unknownHeader)
+			}
+		}
 		h.UnknownFields[key] = val
 	}
 }
diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 760ddca..b5258b7 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -89,7 +89,8 @@ func (p *Parser) parseFile() (*File, error) {
 			return nil, errMsg
 		}
 
-		if msg.ID == "" {
+		// A message without an ID is the header, unless it has a context
+		if msg.ID == "" && (msg.Context == "" || len(msg.Str) == 0) {
 			if len(msg.Str) == 0 {
 				// ignore empty msg
 				continue
@@ -148,7 +149,8 @@ loop:
 		tok, _ := p.scan()
 		switch tok {
 		case commentTranslator, commentExtracted, commentReference, commentFlags, commentObsolete,
-			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine:
+			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine,
+			commentPrevPlural, commentPrevPluralLine:
 			p.unscan()
 			comment, err := p.parseComment()
 			if err != nil {
@@ -176,7 +178,8 @@ loop:
 		case whitespace:
 			// Blank lines within a message have no meaning
 		case commentTranslator, commentExtracted, commentReference, commentFlags, commentObsolete,
-			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine:
+			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine,
+			commentPrevPlural, commentPrevPluralLine:
 			// Message completed, the comment belongs to the next message
 			p.unscan()
 			return msg, nil
@@ -275,7 +278,7 @@ func (p *Parser) parseComment() (*Comment, error) {
 			rawFlags := strings.FieldsFunc(line, func(r rune) bool { return unicode.IsSpace(r) || r == ',' })
 			comment.Flags = append(comment.Flags, rawFlags...)
 		case commentPrevContext:
-			line = strings.TrimSpace(line[10:]) // #| msgctxt
+			line = strings.TrimSpace(line[strings.Index(line, "msgctxt")+7:]) // #| msgctxt
 			if line == "" {
 				continue
 			}
@@ -284,7 +287,7 @@ func (p *Parser) parseComment() (*Comment, error) {
 			line = strings.TrimSpace(line[2:]) // #| "..."
 			comment.PrevMsgContext += DecodePoString(line)
 		case commentPrevMsgID:
-			line = strings.TrimSpace(line[8:]) // #| msgid
+			line = strings.TrimSpace(line[strings.Index(line, "msgid")+5:]) // #| msgid
 			if line == "" {
 				continue
 			}
@@ -292,6 +295,8 @@ func (p *Parser) parseComment() (*Comment, error) {
 		case commentPrevMsgIDLine:
 			line = strings.TrimSpace(line[2:]) // #| "..."
 			comment.PrevMsgID += DecodePoString(line)
+		case commentPrevPlural, commentPrevPluralLine:
+			// The previous plural text is not stored
 		case commentReference:
 			line = strings.TrimSpace(line[2:]) // #:
 
diff --git a/catalog/po/scanner.go b/catalog/po/scanner.go
index 82c08c2..53fb5ff 100644
--- a/catalog/po/scanner.go
+++ b/catalog/po/scanner.go
@@ -9,9 +9,10 @@ import (
 )
 
 var (
-	rePrevMsgContextComments = regexp.MustCompile(`^#\|\s+msgctxt`)  // #| msgctxt
-	rePrevMsgIDComments      = regexp.MustCompile(`^#\|\s+msgid`)    // #| msgid
-	rePrevStringLineComments = regexp.MustCompile(`^#\|\s+".*"\s*$`) // #| "message"
+	rePrevMsgContextComments = regexp.MustCompile(`^#\|\s+msgctxt`)      // #| msgctxt
+	rePrevPluralComments     = regexp.MustCompile(`^#\|\s+msgid_plural`) // #| msgid_plural
+	rePrevMsgIDComments      = regexp.MustCompile(`^#\|\s+msgid`)        // #| msgid
+	rePrevStringLineComments = regexp.MustCompile(`^#\|\s+".*"\s*$`)     // #| "message"
 
 	reMsgContext   = regexp.MustCompile(`^msgctxt\s+".*"\s*$`)           // msgctxt
 	reMsgID        = regexp.MustCompile(`^msgid\s+".*"\s*$`)             // msgid
@@ -177,6 +178,8 @@ func (s *scanner) scanComment(line string) (token, string) {
 		// #| "..."
 		if rePrevMsgContextComments.MatchString(line) {
 			return commentPrevContext, line
+		} else if rePrevPluralComments.MatchString(line) {
+			return commentPrevPlural, line
 		} else if rePrevMsgIDComments.MatchString(line) {
 			return commentPrevMsgID, line
 		} else if rePrevStringLineComments.MatchString(line) {
@@ -185,6 +188,8 @@ func (s *scanner) scanComment(line string) (token, string) {
 				return commentPrevContextLine, line
 			case commentPrevMsgID, commentPrevMsgIDLine:
 				return commentPrevMsgIDLine, line
+			case commentPrevPlural, commentPrevPluralLine:
+				return commentPrevPluralLine, line
 			default:
 				return commentPrevUnknown, line
 			}
diff --git a/catalog/po/token.go b/catalog/po/token.go
index 274e23f..a929ace 100644
--- a/catalog/po/token.go
+++ b/catalog/po/token.go
@@ -14,6 +14,8 @@ const (
 	commentPrevContextLine              // "#| \"prev-ctx\""
 	commentPrevMsgID                    // "#| msgid"
 	commentPrevMsgIDLine                // "#| \"prev-msg\""
+	commentPrevPlural                   // "#| msgid_plural"
+	commentPrevPluralLine               // "#| \"prev-plural\""
 	commentPrevUnknown                  // "#| \"unknown\""
 	commentObsolete                     // "#~ msgid \"obsolete\""
 	msgContext                          // "msgctxt"
-- 
2.43.0


From cac7f47d42f248028cd93037139d38c9dc81d87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:08 +0000
Subject: [PATCH 16/46] fix: read mo files completely and within their bounds

---
 internal/mo/parser.go | 58 +++++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/internal/mo/parser.go b/internal/mo/parser.go
index ce632ed..fb76cc7 100644
--- a/internal/mo/parser.go
+++ b/internal/mo/parser.go
@@ -16,13 +16,17 @@ const (
 
 	eotSeparator = "\x04" // msgctxt and msgid separator
 	nulSeparator = "\x00" // msgid and msgstr separator
+
+	// maxOverlap limits the size of all texts in relation to the size of the file.
+	maxOverlap = 16
 )
 
 var ErrInvalidMagicNumber = errors.New("mo file has invalid magic number")
 
 type parser struct {
-	bo binary.ByteOrder
-	r  io.ReadSeeker
+	bo   binary.ByteOrder
+	r    io.ReadSeeker
+	data string // complete content
 
 	magicNumber  uint32
 	majorVersion uint16
@@ -58,6 +62,13 @@ func newParser(r io.ReadSeeker) *parser {
 }
 
 func (p *parser) parse() (*po.File, error) {
+	data, err := io.ReadAll(p.r)
+	if err != nil {
+		return nil, err
+	}
+	p.data = string(data)
+	p.r = bytes.NewReader(data)
+
 	if err := p.parseByteOrder(); err != nil {
 		return nil, err
 	}
@@ -128,6 +139,12 @@ func (p *parser) parseHeader() error {
 }
 
 func (p *parser) parseMessageData() error {
+	// Every table contains 8 bytes per message
+	tableSize := 8 * int64(p.msgIDCount)
+	if size := int64(len(p.data)); int64(p.msgIDOffset)+tableSize > size || int64(p.msgStrOffset)+tableSize > size {
+		return io.ErrUnexpectedEOF
+	}
+
 	p.messageData = make([]*msgData, p.msgIDCount)
 
 	if _, err := p.r.Seek(int64(p.msgIDOffset), io.SeekStart); err != nil {
@@ -168,7 +185,13 @@ func (p *parser) parseMessageData() error {
 func (p *parser) parseMessages() (*po.File, error) {
 	file := po.NewFile()
 
+	var total int64
 	for _, d := range p.messageData {
+		total += int64(d.idLength) + int64(d.translationLength)
+		if total > maxOverlap*int64(len(p.data)) {
+			return nil, errors.New("mo file contains too many overlapping texts")
+		}
+
 		id, localized, err := p.parseMessage(d)
 		if err != nil {
 			return nil, err
@@ -206,25 +229,23 @@ func (p *parser) parseMessages() (*po.File, error) {
 }
 
 func (p *parser) parseMessage(data *msgData) (id string, localized string, err error) {
-	if _, err = p.r.Seek(int64(data.idOffset), 0); err != nil {
-		return
+	if id, err = p.text(data.idOffset, data.idLength); err != nil {
+		return "", "", err
 	}
-	tmp := make([]byte, data.idLength)
-	if err = p.read(tmp); err != nil {
-		return
-	}
-	id = string(tmp)
 
-	if _, err = p.r.Seek(int64(data.translationOffset), 0); err != nil {
-		return
+	if localized, err = p.text(data.translationOffset, data.translationLength); err != nil {
+		return "", "", err
 	}
 
-	tmp = make([]byte, data.translationLength)
-	if err = p.read(tmp); err != nil {
-		return
+	return id, localized, nil
+}
+
+func (p *parser) text(offset, length uint32) (string, error) {
+	end := int64(offset) + int64(length)
+	if end > int64(len(p.data)) {
+		return "", io.ErrUnexpectedEOF
 	}
-	localized = string(tmp)
-	return
+	return p.data[offset:end], nil
 }
 
 func (p *parser) parseMessageHeader(msg *po.Message) (header *po.Header) {
@@ -249,8 +270,3 @@ func (p *parser) parseMessageHeader(msg *po.Message) (header *po.Header) {
 func (p *parser) binaryRead(data any) error {
 	return binary.Read(p.r, p.bo, data)
 }
-
-func (p *parser) read(d []byte) error {
-	_, err := p.r.Read(d)
-	return err
-}
-- 
2.43.0


From 687967e49940e39372d3ab66ffe07b3cf8db9203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:08 +0000
Subject: [PATCH 17/46] fix: use the plural header if there are no CLDR rules
 for a language

---
 catalog/po_decoder.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/catalog/po_decoder.go b/catalog/po_decoder.go
index ed2ed80..97fe12a 100644
--- a/catalog/po_decoder.go
+++ b/catalog/po_decoder.go
@@ -132,14 +132,15 @@ func buildGettextCatalog(file *po.File, lang language.Tag, domain string, useCLD
 	}
 
 	hasPluralFormHeader := file.Header != nil && file.Header.PluralForms != ""
-	if useCLDRPlural || !hasPluralFormHeader {
-		cat.pluralFunc = getCLDRPluralFunction(lang)
-		return cat, nil
+	if hasPluralFormHeader && strings.EqualFold(file.Header.Get(poCLDRHeader), "true") {
+		useCLDRPlural = true
 	}
 
-	if val := file.Header.Get(poCLDRHeader); strings.EqualFold(val, "true") {
-		cat.pluralFunc = getCLDRPluralFunction(lang)
-		return cat, nil
+	if useCLDRPlural || !hasPluralFormHeader {
+		if _, found := cldrplural.ForLanguage(lang); found || !hasPluralFormHeader {
+			cat.pluralFunc = getCLDRPluralFunction(lang)
+			return cat, nil
+		}
 	}
 
 	rule, err := poplural.Parse(file.Header.PluralForms)
-- 
2.43.0


From 793cef8e688174e6eb977675c818a4d78a053d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:08 +0000
Subject: [PATCH 18/46] fix: report unreadable catalog files and ignore
 directories

---
 loader.go | 80 ++++++++++++++++++++++++++++---------------------------
 1 file changed, 41 insertions(+), 39 deletions(-)

diff --git a/loader.go b/loader.go
index 62d1562..3d050f4 100644
--- a/loader.go
+++ b/loader.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"syscall"
 
 	"golang.org/x/text/language"
 
@@ -93,38 +94,33 @@ func NewFilesystemLoader(opts ...FsOption) (*FilesystemLoader, error) {
 
 func (l *FilesystemLoader) Load(lang language.Tag, domain string) (catalog.Catalog, error) {
 	for i, extension := range l.extensions {
-		cat, err := l.loadFromFile(lang, domain, extension, i)
-		if err != nil {
-			if errors.Is(err, os.ErrNotExist) {
-				continue
-			}
+		resolvedPath, err := l.resolver.Resolve(l.fsys, extension, lang, domain)
+		if errors.Is(err, os.ErrNotExist) {
+			continue
+		} else if err != nil {
+			return nil, err
+		}
+
+		file, err := l.fsys.Open(resolvedPath)
+		if errors.Is(err, os.ErrNotExist) {
+			continue
+		} else if err != nil {
 			return nil, err
 		}
 
-		return cat, nil
+		return loadFromFile(lang, domain, resolvedPath, file, l.decoder[i])
 	}
 
 	return nil, NewErrNotFound(lang, "file", "domain=%q", domain)
 }
 
-func (l *FilesystemLoader) loadFromFile(lang language.Tag, domain, extension string, decoderIndex int) (cat catalog.Catalog, err error) {
-	resolvedPath, err := l.resolver.Resolve(l.fsys, extension, lang, domain)
-	if err != nil {
-		return nil, err
-	}
-
-	file, err := l.fsys.Open(resolvedPath)
-	if err != nil {
-		return nil, err
-	}
+func loadFromFile(lang language.Tag, domain, resolvedPath string, file fs.File, decoder catalog.Decoder) (cat catalog.Catalog, err error) {
 	defer func() {
 		if closeErr := file.Close(); closeErr != nil {
-			err = errors.Join(err, closeErr)
+			cat, err = nil, errors.Join(err, closeErr)
 		}
 	}()
 
-	decoder := l.decoder[decoderIndex]
-
 	switch x := decoder.(type) {
 	case catalog.DecoderV2:
 		cat, err = x.DecodeReader(lang, domain, file)
@@ -265,26 +261,32 @@ func (r *defaultResolver) Resolve(fsys fs.FS, extension string, tag language.Tag
 			continue
 		}
 
-		return searchPath, nil
+		return searchPath, err
 	}
 
 	return "", os.ErrNotExist
 }
 
 func (r *defaultResolver) searchFileForLanguageName(fsys fs.FS, locale, domain, ext string) (string, error) {
-	// Helper function to try a path and return it if it exists
-	tryPath := func(pathElements ...string) (string, bool) {
+	// Helper function to try a path and return it if a file exists
+	tryPath := func(pathElements ...string) (string, bool, error) {
 		searchPath := path.Join(pathElements...)
-		if _, err := fs.Stat(fsys, searchPath); err == nil {
-			return searchPath, true
+		info, err := fs.Stat(fsys, searchPath)
+		switch {
+		case err == nil:
+			return searchPath, !info.IsDir(), nil
+		case errors.Is(err, fs.ErrNotExist), errors.Is(err, fs.ErrInvalid), errors.Is(err, syscall.ENOTDIR):
+			// The path is not valid if, for example, one of its directories is a file
+			return "", false, nil
+		default:
+			return "", false, err
 		}
-		return "", false
 	}
 
 	// .../locale/category/domain.mo
 	if domain != "" {
-		if searchPath, found := tryPath(locale, r.category, domain+ext); found {
-			return searchPath, nil
+		if searchPath, found, err := tryPath(locale, r.category, domain+ext); found || err != nil {
+			return searchPath, err
 		}
 	}
 
@@ -295,35 +297,35 @@ func (r *defaultResolver) searchFileForLanguageName(fsys fs.FS, locale, domain,
 	// Extended search patterns when search is enabled
 	if domain != "" {
 		// .../locale/LC_MESSAGES/domain.mo
-		if searchPath, found := tryPath(locale, "LC_MESSAGES", domain+ext); found {
-			return searchPath, nil
+		if searchPath, found, err := tryPath(locale, "LC_MESSAGES", domain+ext); found || err != nil {
+			return searchPath, err
 		}
 		// .../locale/domain.mo
-		if searchPath, found := tryPath(locale, domain+ext); found {
-			return searchPath, nil
+		if searchPath, found, err := tryPath(locale, domain+ext); found || err != nil {
+			return searchPath, err
 		}
 		// .../domain/locale.mo
-		if searchPath, found := tryPath(domain, locale+ext); found {
-			return searchPath, nil
+		if searchPath, found, err := tryPath(domain, locale+ext); found || err != nil {
+			return searchPath, err
 		}
 	}
 
 	// .../locale.mo
-	if searchPath, found := tryPath(locale + ext); found {
-		return searchPath, nil
+	if searchPath, found, err := tryPath(locale + ext); found || err != nil {
+		return searchPath, err
 	}
 
 	// .../category/locale.mo
 	if r.category != "" {
-		if searchPath, found := tryPath(r.category, locale+ext); found {
-			return searchPath, nil
+		if searchPath, found, err := tryPath(r.category, locale+ext); found || err != nil {
+			return searchPath, err
 		}
 	}
 
 	// .../LC_MESSAGES/locale.mo
 	if r.category != "LC_MESSAGES" {
-		if searchPath, found := tryPath("LC_MESSAGES", locale+ext); found {
-			return searchPath, nil
+		if searchPath, found, err := tryPath("LC_MESSAGES", locale+ext); found || err != nil {
+			return searchPath, err
 		}
 	}
 
-- 
2.43.0


From 3af19c6a8d80abad3b275583dd00b2b323a2a6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:09 +0000
Subject: [PATCH 19/46] fix: fail if a catalog of a required language is
 missing, independent of the order of the options

---
 bundle.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/bundle.go b/bundle.go
index f13c487..cfa6791 100644
--- a/bundle.go
+++ b/bundle.go
@@ -49,6 +49,8 @@ type bundleBuilder struct {
 
 	// catalogs contains the loaded catalogs of every language, the source language has none.
 	catalogs map[language.Tag]map[string]catalog.Catalog
+	// notFound contains the first error of every language for which at least one catalog was not found.
+	notFound map[language.Tag]error
 }
 
 // A Bundle is the central place to load and manage translations.
@@ -94,6 +96,7 @@ func NewBundle(opts ...BundleOption) (*Bundle, error) {
 		domainLoaders: make(map[string]Loader),
 		setupActions:  make([]setupAction, 0),
 		catalogs:      make(map[language.Tag]map[string]catalog.Catalog),
+		notFound:      make(map[language.Tag]error),
 	}
 
 	for _, opt := range opts {
@@ -198,6 +201,13 @@ func (b *bundleBuilder) createLocale(optional bool, lang language.Tag) error {
 		return newMissingLanguageError(lang)
 	}
 
+	if errNotFound, isIncomplete := b.notFound[lang]; isIncomplete {
+		if optional {
+			return nil
+		}
+		return errNotFound
+	}
+
 	if _, isCached := b.catalogs[lang]; isCached {
 		return nil
 	}
@@ -220,6 +230,9 @@ func (b *bundleBuilder) createLocale(optional bool, lang language.Tag) error {
 				}
 
 				if optional {
+					if _, isIncomplete := b.notFound[lang]; !isIncomplete {
+						b.notFound[lang] = errD
+					}
 					continue
 				}
 			}
@@ -233,7 +246,11 @@ func (b *bundleBuilder) createLocale(optional bool, lang language.Tag) error {
 	}
 
 	if len(catalogs) == 0 {
-		return newMissingLanguageError(lang)
+		missErr := newMissingLanguageError(lang)
+		if _, isIncomplete := b.notFound[lang]; !isIncomplete {
+			b.notFound[lang] = missErr
+		}
+		return missErr
 	}
 
 	b.catalogs[lang] = catalogs
-- 
2.43.0


From 172daaa9f3edda3f1a1524b5aa7e5ba2d3b9dd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:20 +0000
Subject: [PATCH 20/46] fix: write json messages without loss and with a
 deterministic result

---
 catalog/json.go | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/catalog/json.go b/catalog/json.go
index 1df4597..dcf48fe 100644
--- a/catalog/json.go
+++ b/catalog/json.go
@@ -43,6 +43,8 @@ type jsonCatalog struct {
 	// Map for a quick lookup of messages.
 	// First key is the context and second the msg key (e.g. lookup["context"]["app.name"]).
 	lookupMap jsonLookupMap
+	// Contexts of the messages by key.
+	contexts map[string]string
 }
 
 var _ JSONCatalog = (*jsonCatalog)(nil)
@@ -77,8 +79,8 @@ func NewJSONCatalogWithMessages(lang language.Tag, domain string, messages JSONM
 		pluralSet: pluralSet,
 	}
 
-	for key, msg := range messages {
-		if err := cat.setMessage(key, msg); err != nil {
+	for _, key := range slices.Sorted(maps.Keys(messages)) {
+		if err := cat.setMessage(key, messages[key]); err != nil {
 			return nil, err
 		}
 	}
@@ -175,6 +177,15 @@ func (c *jsonCatalog) setMessage(key string, srcMsg *JSONMessage) error {
 	applyCategoriesToJSONMessage(c.pluralSet.Categories, msg)
 
 	ctx := msg.Context
+	if oldCtx, ok := c.contexts[key]; ok && oldCtx != ctx {
+		// The key is unique in the catalog
+		delete(c.lookupMap[oldCtx], key)
+	}
+	if c.contexts == nil {
+		c.contexts = make(map[string]string)
+	}
+	c.contexts[key] = ctx
+
 	if _, ok := c.lookupMap[ctx]; !ok {
 		c.lookupMap[ctx] = make(map[string]*JSONMessage)
 	}
@@ -203,8 +214,8 @@ func (c *jsonCatalog) UnmarshalJSON(data []byte) error {
 		return errors.New("spreak: File contains no translations")
 	}
 
-	for msgID, msg := range file {
-		if err := c.setMessage(msgID, msg); err != nil {
+	for _, key := range slices.Sorted(maps.Keys(file)) {
+		if err := c.setMessage(key, file[key]); err != nil {
 			return err
 		}
 	}
@@ -323,7 +334,8 @@ func (m *JSONMessage) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
-	for key, value := range mm {
+	for _, key := range slices.Sorted(maps.Keys(mm)) {
+		value := mm[key]
 		switch strings.ToLower(key) {
 		case "comment":
 			m.Comment = value
@@ -358,17 +370,10 @@ var categories = []cldrplural.Category{
 }
 
 func (m JSONMessage) MarshalJSON() ([]byte, error) {
-	if m.Translations == nil {
-		m.Translations = make(map[cldrplural.Category]string)
-	}
-
-	if len(m.Translations) == 0 {
-		m.Translations[cldrplural.Other] = ""
-	}
-
 	// If only Other is set, only Other is returned.
-	if m.Comment == "" && m.Context == "" && len(m.Translations) == 1 {
-		other := m.Translations[cldrplural.Other]
+	other, hasOther := m.Translations[cldrplural.Other]
+	onlyOther := len(m.Translations) == 0 || (len(m.Translations) == 1 && hasOther)
+	if m.Comment == "" && m.Context == "" && onlyOther {
 		return json.Marshal(other)
 	}
 
@@ -379,6 +384,9 @@ func (m JSONMessage) MarshalJSON() ([]byte, error) {
 		if err != nil {
 			return err
 		}
+		if buf.Len() > 1 {
+			buf.WriteRune(',')
+		}
 		buf.WriteString(fmt.Sprintf(`"%s": `, key))
 		buf.Write(data)
 		return nil
@@ -389,28 +397,20 @@ func (m JSONMessage) MarshalJSON() ([]byte, error) {
 		if err := writeKeyValue("comment", m.Comment); err != nil {
 			return nil, err
 		}
-		buf.WriteRune(',')
 	}
 
 	if m.Context != "" {
 		if err := writeKeyValue("context", m.Context); err != nil {
 			return nil, err
 		}
-		buf.WriteRune(',')
 	}
 
-	i := 0
 	for _, cat := range categories {
 		value, ok := m.Translations[cat]
-		if !ok {
+		if !ok && (cat != cldrplural.Other || len(m.Translations) > 0) {
 			continue
 		}
 
-		if i > 0 {
-			buf.WriteRune(',')
-		}
-		i++
-
 		key := strings.ToLower(cat.String())
 		if err := writeKeyValue(key, value); err != nil {
 			return nil, err
-- 
2.43.0


From f2a43f391b87c1d357c10def6cb0ce92adfbdefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:11 +0000
Subject: [PATCH 21/46] fix: convert numbers of named types by their value and
 keep the digits of numeric strings

---
 catalog/cldrplural/cldr.go | 9 +++++----
 internal/cast/number.go    | 8 +++++++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/catalog/cldrplural/cldr.go b/catalog/cldrplural/cldr.go
index 97a2dbc..c5a4331 100644
--- a/catalog/cldrplural/cldr.go
+++ b/catalog/cldrplural/cldr.go
@@ -95,11 +95,9 @@ func NewOperands(a any) (*Operands, error) {
 		return nil, errors.New("operands value is nil")
 	}
 
-	if v, ok := a.(string); ok {
-		return newOperandsString(v)
-	}
-
 	switch v := reflect.ValueOf(a); v.Kind() {
+	case reflect.String:
+		return newOperandsString(v.String())
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
 		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
 		i, err := cast.ToInteger(a)
@@ -140,6 +138,9 @@ func newOperandsString(raw string) (*Operands, error) {
 	if errP != nil {
 		return nil, errP
 	}
+	if strings.ContainsAny(raw, "eE") {
+		raw = strconv.FormatFloat(src, 'f', -1, 64)
+	}
 
 	op.N = math.Abs(src)
 	if !(op.N < 1<<63) {
diff --git a/internal/cast/number.go b/internal/cast/number.go
index e90a988..2a56229 100644
--- a/internal/cast/number.go
+++ b/internal/cast/number.go
@@ -51,7 +51,13 @@ func ToNumber(n any) (float64, error) {
 		return res, nil
 	}
 
-	switch reflect.TypeOf(n).Kind() {
+	switch v := reflect.ValueOf(n); v.Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return float64(v.Int()), nil
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
+		return float64(v.Uint()), nil
+	case reflect.Float32, reflect.Float64:
+		return v.Float(), nil
 	case reflect.Ptr, reflect.Func, reflect.Chan, reflect.UnsafePointer:
 		// The formatted values would be addresses
 		return 0, fmt.Errorf("unable to cast value of type %T to float64", n)
-- 
2.43.0


From 3b5c0f1309be2c5f157398249e67f12767f393ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 22/46] fix: humanize numbers exactly and over the whole
 numeric range

---
 humanize/helper.go      | 57 +++++++++++++++++------------
 humanize/numbers.go     | 80 +++++++++++++++++++++++++++++++----------
 internal/cast/number.go | 28 +++++++++++++++
 3 files changed, 123 insertions(+), 42 deletions(-)

diff --git a/humanize/helper.go b/humanize/helper.go
index 7f871bb..3843ddb 100644
--- a/humanize/helper.go
+++ b/humanize/helper.go
@@ -52,41 +52,52 @@ const (
 // Valid inputs are byte arrays or any numeric value.
 // For all other inputs, a string is returned with an error message in fmt style.
 func (h *Humanizer) FilesizeFormat(v any) string {
-	var count int64
+	var value any
 	switch val := v.(type) {
 	case []byte:
-		count = int64(len(val))
+		value = int64(len(val))
 	default:
-		value, err := cast.ToNumber(v)
+		num, err := cast.ToExactNumber(v)
 		if err != nil {
 			return formatErrorMessage(v)
 		}
-		count = int64(value)
+		value = num
+	}
+
+	var count float64
+	switch num := value.(type) {
+	case int64:
+		count = float64(num)
+	case uint64:
+		count = float64(num)
+	case float64:
+		if math.IsNaN(num) || math.IsInf(num, 0) {
+			return formatErrorMessage(v)
+		}
+		count = math.Trunc(num)
 	}
 
 	isNegative := count < 0
-	if isNegative {
-		count = -count
+	count = math.Abs(count)
+
+	formatCount := func(unit int64) string {
+		return h.loc.Print("%v", number.Decimal(count/float64(unit), number.MaxFractionDigits(1)))
 	}
 
 	var result string
-	if count < kb {
-		result = h.loc.NGetf("%[1]d byte", "%[1]d bytes", count, count)
-	} else if count < mb {
-		formatted := h.loc.Print("%v", number.Decimal(float64(count)/float64(kb), number.MaxFractionDigits(1)))
-		result = h.loc.Getf("%s KB", formatted)
-	} else if count < gb {
-		formatted := h.loc.Print("%v", number.Decimal(float64(count)/float64(mb), number.MaxFractionDigits(1)))
-		result = h.loc.Getf("%s MB", formatted)
-	} else if count < tb {
-		formatted := h.loc.Print("%v", number.Decimal(float64(count)/float64(gb), number.MaxFractionDigits(1)))
-		result = h.loc.Getf("%s GB", formatted)
-	} else if count < pb {
-		formatted := h.loc.Print("%v", number.Decimal(float64(count)/float64(tb), number.MaxFractionDigits(1)))
-		result = h.loc.Getf("%s TB", formatted)
-	} else {
-		formatted := h.loc.Print("%v", number.Decimal(float64(count)/float64(pb), number.MaxFractionDigits(1)))
-		result = h.loc.Getf("%s PB", formatted)
+	switch {
+	case count < float64(kb):
+		result = h.loc.NGetf("%[1]d byte", "%[1]d bytes", int64(count), int64(count))
+	case count < float64(mb):
+		result = h.loc.Getf("%s KB", formatCount(kb))
+	case count < float64(gb):
+		result = h.loc.Getf("%s MB", formatCount(mb))
+	case count < float64(tb):
+		result = h.loc.Getf("%s GB", formatCount(gb))
+	case count < float64(pb):
+		result = h.loc.Getf("%s TB", formatCount(tb))
+	default:
+		result = h.loc.Getf("%s PB", formatCount(pb))
 	}
 
 	if isNegative {
diff --git a/humanize/numbers.go b/humanize/numbers.go
index 0e58c0d..ef5faf6 100644
--- a/humanize/numbers.go
+++ b/humanize/numbers.go
@@ -34,17 +34,34 @@ var apnumbers = []string{
 //
 // - 10 becomes 10.
 func (h *Humanizer) Apnumber(val any) string {
-	fl, err := cast.ToNumber(val)
+	num, err := cast.ToExactNumber(val)
 	if err != nil {
 		return formatErrorMessage(val)
 	}
 
-	num := int64(fl)
-	if num <= 0 || num >= 10 {
-		return h.loc.Print("%d", num)
+	if fl, isFloat := num.(float64); isFloat {
+		num = truncate(fl)
 	}
 
-	return h.loc.Get(apnumbers[num-1])
+	for i, name := range apnumbers {
+		if num == any(int64(i+1)) || num == any(uint64(i+1)) {
+			return h.loc.Get(name)
+		}
+	}
+
+	if _, isFloat := num.(float64); isFloat {
+		return h.loc.Print("%v", number.Decimal(num))
+	}
+	return h.loc.Print("%d", num)
+}
+
+// truncate removes the fractional digits of a number.
+// The result is an integer if the number is within the range of int64.
+func truncate(num float64) any {
+	if num >= -1<<63 && num < 1<<63 {
+		return int64(num)
+	}
+	return math.Trunc(num)
 }
 
 // A tuple of standard large number to their converters.
@@ -66,6 +83,8 @@ var intwordConverters = []struct {
 	{100, "%[1]s googol", "%[1]s googol"},
 }
 
+const maxPluralNumber = 1e15
+
 // Intword convert a large integer to a friendly text representation. Works best
 // for numbers over 1 million. For example, 1000000 becomes '1.0 million',
 // 1200000 becomes '1.2 million' and '1200000000' becomes '1.2 billion'.
@@ -83,22 +102,30 @@ func (h *Humanizer) Intword(i any) string {
 
 	absValue := math.Abs(value)
 	if absValue < 1_000_000 {
-		return h.Intcomma(value)
+		return h.Intcomma(i)
 	}
 
-	for _, converter := range intwordConverters {
+	for idx, converter := range intwordConverters {
 		largeNumber := math.Pow10(converter.exponent)
-		if absValue < (largeNumber * float64(1000)) {
+		limit := largeNumber * float64(1000)
+		if idx+1 < len(intwordConverters) {
+			limit = math.Pow10(intwordConverters[idx+1].exponent)
+		}
+		if absValue < limit {
 			newValue := value / largeNumber
-			roundedValue := int64(math.Ceil(newValue-1)) + 1
+			roundedValue := math.Ceil(newValue-1) + 1
 			if roundedValue < 0 {
-				roundedValue = int64(math.Abs(math.Floor(newValue)))
+				roundedValue = math.Abs(math.Floor(newValue))
+			}
+			if roundedValue > maxPluralNumber {
+				// The last digits are sufficient to select the plural form
+				roundedValue = maxPluralNumber + math.Mod(roundedValue, maxPluralNumber)
 			}
 			formattedNumber := h.loc.Print("%.1f", newValue)
-			return h.loc.NGetf(converter.singular, converter.plural, roundedValue, formattedNumber)
+			return h.loc.NGetf(converter.singular, converter.plural, int64(roundedValue), formattedNumber)
 		}
 	}
-	return h.Intcomma(value)
+	return h.Intcomma(i)
 }
 
 // Intcomma converts an integer to a string containing commas every three digits.
@@ -106,7 +133,7 @@ func (h *Humanizer) Intword(i any) string {
 //
 // Valid inputs are all values that can be interpreted as a number.
 func (h *Humanizer) Intcomma(i any) string {
-	value, err := cast.ToNumber(i)
+	value, err := cast.ToExactNumber(i)
 	if err != nil {
 		return formatErrorMessage(i)
 	}
@@ -145,21 +172,36 @@ var ordinalTemplates = []struct {
 //
 // Valid inputs are all values that can be interpreted as a number.
 func (h *Humanizer) Ordinal(i any) string {
-	floatValue, err := cast.ToNumber(i)
+	value, err := cast.ToExactNumber(i)
 	if err != nil {
 		return formatErrorMessage(i)
 	}
 
-	if floatValue < 0 {
-		return strconv.FormatInt(int64(floatValue), 10)
+	var lastDigits uint64
+	if floatValue, isFloat := value.(float64); isFloat {
+		value = truncate(floatValue)
+		if floatValue < 0 && value == any(int64(0)) {
+			return "0"
+		}
+	}
+
+	switch v := value.(type) {
+	case int64:
+		if v < 0 {
+			return strconv.FormatInt(v, 10)
+		}
+		lastDigits = uint64(v) % 100
+	case uint64:
+		lastDigits = v % 100
+	case float64:
+		return strconv.FormatFloat(v, 'f', -1, 64)
 	}
 
-	value := int64(floatValue)
-	switch value % 100 {
+	switch lastDigits {
 	case 11, 12, 13:
 		return h.loc.PGetf("ordinal 11, 12, 13", "%vth", value)
 	}
 
-	template := ordinalTemplates[value%10]
+	template := ordinalTemplates[lastDigits%10]
 	return h.loc.PGetf(template.Context, template.ID, value)
 }
diff --git a/internal/cast/number.go b/internal/cast/number.go
index 2a56229..47d6bcf 100644
--- a/internal/cast/number.go
+++ b/internal/cast/number.go
@@ -104,6 +104,34 @@ func ToInteger(n any) (int64, error) {
 	return int64(num), nil
 }
 
+// ToExactNumber returns integers with up to 64 bits as int64 or uint64 and all other numbers as float64.
+func ToExactNumber(n any) (any, error) {
+	n = Indirect(n)
+	if n == nil {
+		return nil, errors.New("number is nil")
+	}
+
+	switch v := reflect.ValueOf(n); v.Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return v.Int(), nil
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
+		return v.Uint(), nil
+	case reflect.String:
+		if num, err := strconv.ParseInt(v.String(), 10, 64); err == nil {
+			return num, nil
+		}
+		if num, err := strconv.ParseUint(v.String(), 10, 64); err == nil {
+			return num, nil
+		}
+	}
+
+	num, err := ToNumber(n)
+	if err != nil {
+		return nil, err
+	}
+	return num, nil
+}
+
 func absolute(num int64, n any) (int64, error) {
 	if num < 0 {
 		num = -num
-- 
2.43.0


From 66eb14da391cbf11151d38f8f939f2e9c77f57fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:08 +0000
Subject: [PATCH 23/46] fix: take the daylight saving flag from the time zone

---
 humanize/dateformat.go | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/humanize/dateformat.go b/humanize/dateformat.go
index 19c76b0..d7e1656 100644
--- a/humanize/dateformat.go
+++ b/humanize/dateformat.go
@@ -262,18 +262,8 @@ func (tf *timeFormatter) F() string {
 
 // I - '1' if daylight saving time, '0' otherwise.
 func (tf *timeFormatter) I() string {
-	_, timeOffset := tf.data.Zone()
-	_, winterOffset := time.Date(tf.data.Year(), 1, 1, 0, 0, 0, 0, tf.data.Location()).Zone()
-	_, summerOffset := time.Date(tf.data.Year(), 7, 1, 0, 0, 0, 0, tf.data.Location()).Zone()
-
-	if winterOffset > summerOffset {
-		winterOffset, summerOffset = summerOffset, winterOffset
-	}
-
-	if winterOffset != summerOffset { // the location has daylight saving
-		if timeOffset != winterOffset {
-			return "1"
-		}
+	if tf.data.IsDST() {
+		return "1"
 	}
 	return "0"
 }
-- 
2.43.0


From 93ca3633edafb8403a51da523d7e5de732c37a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:08 +0000
Subject: [PATCH 24/46] fix: describe elapsed times and days exactly

---
 humanize/date.go      | 46 +++++++++++++++++++++++++++----------------
 humanize/helper.go    |  4 ----
 internal/cast/time.go | 11 +++++++++--
 3 files changed, 38 insertions(+), 23 deletions(-)

diff --git a/humanize/date.go b/humanize/date.go
index 7c82961..d3ba23c 100644
--- a/humanize/date.go
+++ b/humanize/date.go
@@ -2,6 +2,7 @@ package humanize
 
 import (
 	"math"
+	"slices"
 	"sort"
 	"strings"
 	"time"
@@ -53,9 +54,11 @@ func (h *Humanizer) NaturalDay(i any) string {
 		return formatErrorMessage(i)
 	}
 
-	value := time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, t.Location())
-	now := time.Now().In(value.Location())
-	today := time.Date(now.Year(), now.Month(), now.Day(), 0, 0, 0, 0, now.Location())
+	now := time.Now().In(t.Location())
+
+	// All days have the same length in UTC
+	value := time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
+	today := time.Date(now.Year(), now.Month(), now.Day(), 0, 0, 0, 0, time.UTC)
 
 	delta := value.Sub(today).Hours() / 24
 	switch delta {
@@ -122,20 +125,19 @@ var naturalFutureSubstrings = map[string]gettextEntry{
 // Valid inputs are time.Time, time.Duration or any numeric value which is interpreted as seconds since the Unix epoch.
 // For all other inputs, a string is returned with an error message in fmt style.
 func (h *Humanizer) NaturalTime(i any) string {
-	now := time.Now()
 	t, err := cast.ToTime(i)
 	if err != nil {
 		return formatErrorMessage(i)
 	}
 
-	now = now.In(t.Location())
+	now := time.Now().In(t.Location())
 	if t.Before(now) {
 		delta := now.Sub(t)
 		deltaSec := int64(delta.Truncate(time.Second).Seconds())
 
-		if int64(delta.Round(time.Second).Hours()) >= 24 {
+		if int64(delta.Hours()) >= 24 {
 			entry := naturalTimeStrings["past-day"]
-			timeSince := h.TimeSince(t, withTimeStrings(naturalPastSubstrings))
+			timeSince := h.TimeSince(t, withTimeStrings(naturalPastSubstrings), WithNow(now))
 			return h.loc.Getf(entry.singular, timeSince)
 		} else if deltaSec == 0 {
 			entry := naturalTimeStrings["now"]
@@ -143,7 +145,7 @@ func (h *Humanizer) NaturalTime(i any) string {
 		} else if deltaSec < 60 {
 			entry := naturalTimeStrings["past-second"]
 			return h.loc.NGetf(entry.singular, entry.plural, deltaSec, deltaSec)
-		} else if floorDivision(delta.Round(time.Second).Seconds(), 60) < 60 {
+		} else if deltaSec/60 < 60 {
 			count := int64(math.Floor(float64(deltaSec) / 60))
 			entry := naturalTimeStrings["past-minute"]
 			return h.loc.NGetf(entry.singular, entry.plural, count, count)
@@ -158,7 +160,7 @@ func (h *Humanizer) NaturalTime(i any) string {
 	deltaSec := int64(delta.Round(time.Second).Seconds())
 	if int64(delta.Round(time.Second).Hours()) >= 24 {
 		entry := naturalTimeStrings["future-day"]
-		timeSince := h.TimeUntil(t, withTimeStrings(naturalFutureSubstrings))
+		timeSince := h.TimeUntil(t, withTimeStrings(naturalFutureSubstrings), WithNow(now))
 		return h.loc.Getf(entry.singular, timeSince)
 	} else if deltaSec == 0 {
 		entry := naturalTimeStrings["now"]
@@ -166,7 +168,7 @@ func (h *Humanizer) NaturalTime(i any) string {
 	} else if deltaSec < 60 {
 		entry := naturalTimeStrings["future-second"]
 		return h.loc.NGetf(entry.singular, entry.plural, deltaSec, deltaSec)
-	} else if floorDivision(float64(deltaSec), 60) < 60 {
+	} else if deltaSec/60 < 60 {
 		count := int64(math.Floor(float64(deltaSec) / 60))
 		entry := naturalTimeStrings["future-minute"]
 		return h.loc.NGetf(entry.singular, entry.plural, count, count)
@@ -303,10 +305,13 @@ func (h *Humanizer) TimeSince(inputTime any, opts ...TimeOption) string {
 		d, now = now, d
 	}
 
+	// The years of both times are those of the same place
+	now = now.In(d.Location())
+
 	// ignore microseconds
-	delta := now.In(time.UTC).Unix() - d.In(time.UTC).Unix()
+	delta := now.Unix() - d.Unix()
 
-	// Deal with leapyears by subtracing the number of leapdays
+	// Deal with leapyears by subtracting the number of leapdays
 	leapdays := calendar.LeapDays(d.Year(), now.Year())
 	if leapdays != 0 {
 		if calendar.IsLeap(d.Year()) {
@@ -317,6 +322,13 @@ func (h *Humanizer) TimeSince(inputTime any, opts ...TimeOption) string {
 	}
 	delta -= 60 * 60 * 24 * int64(leapdays)
 
+	// The leap day of the current year may still be to come
+	years := now.Year() - d.Year()
+	if years > 0 && d.AddDate(years, 0, 0).Unix() > now.Unix() {
+		years--
+	}
+	delta = max(delta, int64(years)*timeSinceChunks[0].seconds)
+
 	if delta <= 0 {
 		//  d is in the future compared to now, stop processing.
 		entry := o.timeStrings["minute"]
@@ -327,7 +339,7 @@ func (h *Humanizer) TimeSince(inputTime any, opts ...TimeOption) string {
 
 	i := sort.Search(len(timeSinceChunks), func(i int) bool {
 		chunk := timeSinceChunks[i]
-		count := floorDivision(float64(since), float64(chunk.seconds))
+		count := since / chunk.seconds
 		return count != 0
 	})
 
@@ -340,7 +352,7 @@ func (h *Humanizer) TimeSince(inputTime any, opts ...TimeOption) string {
 	currentDepth := 0
 	for i < len(timeSinceChunks) && currentDepth < o.depth {
 		chunk := timeSinceChunks[i]
-		count := floorDivision(float64(since), float64(chunk.seconds))
+		count := since / chunk.seconds
 		i++
 		if count <= 0 {
 			if o.requireAdjacent {
@@ -361,7 +373,7 @@ func (h *Humanizer) TimeSince(inputTime any, opts ...TimeOption) string {
 // TimeSinceFrom works like TimeSince, but the time to use as the comparison point can be specified.
 // Is equivalent to TimeSince(d, WithNow(now)).
 func (h *Humanizer) TimeSinceFrom(d any, now time.Time, opts ...TimeOption) string {
-	opts = append(opts, WithNow(now))
+	opts = append(slices.Clip(opts), WithNow(now))
 	return h.TimeSince(d, opts...)
 }
 
@@ -374,14 +386,14 @@ func (h *Humanizer) TimeUntil(d any, opts ...TimeOption) string {
 		return formatErrorMessage(d)
 	}
 
-	opts = append(opts, WithReverse(true))
+	opts = append(slices.Clip(opts), WithReverse(true))
 	return h.TimeSince(parsedTime, opts...)
 }
 
 // TimeUntilFrom works like TimeUntil, but the time to use as the comparison point can be specified.
 // Is equivalent to TimeUntil(d, WithNow(now)).
 func (h *Humanizer) TimeUntilFrom(d any, now time.Time, opts ...TimeOption) string {
-	opts = append(opts, WithNow(now), WithReverse(true))
+	opts = append(slices.Clip(opts), WithNow(now), WithReverse(true))
 	return h.TimeSince(d, opts...)
 }
 
diff --git a/humanize/helper.go b/humanize/helper.go
index 3843ddb..b5dde21 100644
--- a/humanize/helper.go
+++ b/humanize/helper.go
@@ -106,10 +106,6 @@ func (h *Humanizer) FilesizeFormat(v any) string {
 	return result
 }
 
-func floorDivision(a, b float64) int64 {
-	return int64(math.Floor(toFixed(a/b, 3)))
-}
-
 func toFixed(num float64, precision int) float64 {
 	output := math.Pow(10, float64(precision))
 	return math.Round(num*output) / output
diff --git a/internal/cast/time.go b/internal/cast/time.go
index 1e02410..49c2c41 100644
--- a/internal/cast/time.go
+++ b/internal/cast/time.go
@@ -19,8 +19,15 @@ func ToTime(i any) (t time.Time, err error) {
 		return time.Now().Add(v), nil
 	}
 
-	if num, err := ToNumber(i); err == nil {
-		return time.Unix(int64(num), 0), nil
+	if num, err := ToExactNumber(i); err == nil {
+		switch v := num.(type) {
+		case int64:
+			return time.Unix(v, 0), nil
+		case float64:
+			if v >= -1<<63 && v < 1<<63 {
+				return time.Unix(int64(v), 0), nil
+			}
+		}
 	}
 	return time.Time{}, fmt.Errorf("unable to cast %#v of type %T to Time", i, i)
 }
-- 
2.43.0


From f04519f60df1402720f5c6220cfb15eb0d26bf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:37 +0000
Subject: [PATCH 25/46] fix: humanizers do not share or change the locale data
 of the caller

---
 humanize/humanizer.go | 20 +++++++++-----------
 humanize/locale.go    |  7 ++++++-
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/humanize/humanizer.go b/humanize/humanizer.go
index 07ec25f..23bdf58 100644
--- a/humanize/humanizer.go
+++ b/humanize/humanizer.go
@@ -114,24 +114,22 @@ func New(opts ...Option) (*Collection, error) {
 		}
 	}
 
-	for _, d := range o.locales {
-		if d.Format == nil {
-			d.Format = fallbackFormat
-		}
-		d.Format.setDefaults()
-	}
-
 	loader := newLoader(o.locales)
 
 	coll := &Collection{
 		locales: make(map[language.Tag]*FormatData, len(o.locales)),
 	}
-	languages := make([]any, 0, len(loader.locales))
-	for tag, data := range loader.locales {
-		languages = append(languages, tag)
+	languages := make([]any, 0, len(o.locales))
+	for _, data := range o.locales {
+		languages = append(languages, data.Lang)
+
+		// The data belong to the caller and must neither be changed nor change later.
+		format := FormatData{FirstDayOfWeek: fallbackFormat.FirstDayOfWeek}
 		if data.Format != nil {
-			coll.locales[tag] = data.Format
+			format = *data.Format
 		}
+		format.setDefaults()
+		coll.locales[data.Lang] = &format
 	}
 
 	o.bundleOptions = append(o.bundleOptions,
diff --git a/humanize/locale.go b/humanize/locale.go
index eb0217d..fa338ae 100644
--- a/humanize/locale.go
+++ b/humanize/locale.go
@@ -1,6 +1,7 @@
 package humanize
 
 import (
+	"errors"
 	"io/fs"
 
 	"golang.org/x/text/language"
@@ -18,7 +19,8 @@ func newLoader(locales []*LocaleData) *localeLoader {
 		locales: make(map[language.Tag]*LocaleData, len(locales)),
 	}
 	for _, loc := range locales {
-		loader.locales[loc.Lang] = loc
+		data := *loc
+		loader.locales[loc.Lang] = &data
 	}
 	return loader
 }
@@ -31,6 +33,9 @@ func (loader *localeLoader) Load(lang language.Tag, domain string) (catalog.Cata
 
 	content, err := fs.ReadFile(data.Fs, domain+".po")
 	if err != nil {
+		if !errors.Is(err, fs.ErrNotExist) {
+			return nil, err
+		}
 		return nil, spreak.NewErrNotFound(lang, "humanize", "domain=%q,err=%v", domain, err)
 	}
 
-- 
2.43.0


From d6e81539837d39d1fac1053fb9fd1a63ccca1beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:25 +0000
Subject: [PATCH 26/46] fix: times may be given as unsigned numbers

---
 internal/cast/time.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/cast/time.go b/internal/cast/time.go
index 49c2c41..b5690b5 100644
--- a/internal/cast/time.go
+++ b/internal/cast/time.go
@@ -3,6 +3,7 @@ package cast
 import (
 	"errors"
 	"fmt"
+	"math"
 	"time"
 )
 
@@ -23,6 +24,10 @@ func ToTime(i any) (t time.Time, err error) {
 		switch v := num.(type) {
 		case int64:
 			return time.Unix(v, 0), nil
+		case uint64:
+			if v <= math.MaxInt64 {
+				return time.Unix(int64(v), 0), nil
+			}
 		case float64:
 			if v >= -1<<63 && v < 1<<63 {
 				return time.Unix(int64(v), 0), nil
-- 
2.43.0


From 798fc91cf7ed02f09f6341fd92988e1f2b548ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:25 +0000
Subject: [PATCH 27/46] fix: whole floats select the plural form of their exact
 value

---
 catalog/cldrplural/cldr.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/catalog/cldrplural/cldr.go b/catalog/cldrplural/cldr.go
index c5a4331..f844e47 100644
--- a/catalog/cldrplural/cldr.go
+++ b/catalog/cldrplural/cldr.go
@@ -106,14 +106,23 @@ func NewOperands(a any) (*Operands, error) {
 		}
 		return &Operands{N: float64(i), I: i}, nil
 	case reflect.Float32:
-		return newOperandsString(strconv.FormatFloat(v.Float(), 'f', -1, 32))
+		return newOperandsString(formatFloat(v.Float(), 32))
 	}
 
 	num, err := cast.ToNumber(a)
 	if err != nil {
 		return nil, err
 	}
-	return newOperandsString(strconv.FormatFloat(num, 'f', -1, 64))
+	return newOperandsString(formatFloat(num, 64))
+}
+
+// formatFloat writes whole numbers exactly and all other numbers with as many digits as necessary.
+func formatFloat(num float64, bitSize int) string {
+	prec := -1
+	if num == math.Trunc(num) {
+		prec = 0
+	}
+	return strconv.FormatFloat(num, 'f', prec, bitSize)
 }
 
 // maxExponent is the largest supported compact decimal exponent.
@@ -139,7 +148,7 @@ func newOperandsString(raw string) (*Operands, error) {
 		return nil, errP
 	}
 	if strings.ContainsAny(raw, "eE") {
-		raw = strconv.FormatFloat(src, 'f', -1, 64)
+		raw = formatFloat(src, 64)
 	}
 
 	op.N = math.Abs(src)
-- 
2.43.0


From 2eb10a2137301a3b6b26d4951ae1fe64f4b7082a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:02 +0000
Subject: [PATCH 28/46] fix: report texts whose closing quote is escaped as an
 error

---
 catalog/po/scanner.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/catalog/po/scanner.go b/catalog/po/scanner.go
index 53fb5ff..34b62f3 100644
--- a/catalog/po/scanner.go
+++ b/catalog/po/scanner.go
@@ -94,6 +94,14 @@ func (s *scanner) scanMessage(line string) (token, string) {
 	// We additionally use the functions of the strings package,
 	// as these are more performant than just the regular expressions.
 
+	// The last quote does not close the text if it is escaped
+	if strings.HasSuffix(line, `\"`) {
+		text := line[:len(line)-1]
+		if backslashes := len(text) - len(strings.TrimRight(text, `\`)); backslashes%2 != 0 {
+			return failure, line
+		}
+	}
+
 	if strings.HasPrefix(line, msgIDPrefix) && reMsgID.MatchString(line) {
 		return msgID, line
 	}
-- 
2.43.0


From 81f1c74b1b85ca05e58d2ab05346f9e5678fbfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:03 +0000
Subject: [PATCH 29/46] fix: read texts that are spread over many lines in
 linear time

---
 catalog/po/parser.go | 93 +++++++++++++++++++++++++++++---------------
 1 file changed, 61 insertions(+), 32 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index b5258b7..bd3a790 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -167,6 +167,24 @@ loop:
 	// Index of the last plural form read
 	lastIdx := 0
 	var hasContext, hasID bool
+
+	// The texts can be spread over any number of lines
+	var ctx, id, idPlural strings.Builder
+	translations := make(map[int]*strings.Builder, 1)
+	addTranslation := func(idx int, text string) {
+		if translations[idx] == nil {
+			translations[idx] = &strings.Builder{}
+		}
+		translations[idx].WriteString(text)
+	}
+	complete := func() *Message {
+		msg.Context, msg.ID, msg.IDPlural = ctx.String(), id.String(), idPlural.String()
+		for idx, text := range translations {
+			msg.Str[idx] = text.String()
+		}
+		return msg
+	}
+
 	for {
 		tok, lit := p.scan()
 		switch tok {
@@ -174,7 +192,7 @@ loop:
 			return nil, p.buildPosError()
 		case eof:
 			// Message completed
-			return msg, nil
+			return complete(), nil
 		case whitespace:
 			// Blank lines within a message have no meaning
 		case commentTranslator, commentExtracted, commentReference, commentFlags, commentObsolete,
@@ -182,42 +200,43 @@ loop:
 			commentPrevPlural, commentPrevPluralLine:
 			// Message completed, the comment belongs to the next message
 			p.unscan()
-			return msg, nil
+			return complete(), nil
 		case msgContext:
 			if hasContext || hasID {
 				// Message completed, the next message starts without a blank line
 				p.unscan()
-				return msg, nil
+				return complete(), nil
 			}
 			hasContext = true
 			line := lit[8:] // msgctxt
-			msg.Context = DecodePoString(line)
+			ctx.WriteString(DecodePoString(line))
 		case msgContextLine:
-			msg.Context += DecodePoString(lit)
+			ctx.WriteString(DecodePoString(lit))
 		case msgID:
 			if hasID {
 				// Message completed, the next message starts without a blank line
 				p.unscan()
-				return msg, nil
+				return complete(), nil
 			}
 			hasID = true
 			line := lit[6:] // msgid
-			msg.ID = DecodePoString(line)
+			id.WriteString(DecodePoString(line))
 		case msgIDLine:
-			msg.ID += DecodePoString(lit)
+			id.WriteString(DecodePoString(lit))
 		case msgIDPlural:
 			line := lit[13:] // msgid_plural
-			msg.IDPlural = DecodePoString(line)
+			idPlural.Reset()
+			idPlural.WriteString(DecodePoString(line))
 		case msgIDPluralLine:
-			msg.IDPlural += DecodePoString(lit)
+			idPlural.WriteString(DecodePoString(lit))
 		case msgStr:
-			if _, ok := msg.Str[0]; ok || !hasID {
+			if _, ok := translations[0]; ok || !hasID {
 				return nil, p.buildPosError()
 			}
 			line := lit[6:] // msgstr
-			msg.Str[0] = DecodePoString(line)
+			addTranslation(0, DecodePoString(line))
 		case msgStrLine:
-			msg.Str[0] += DecodePoString(lit)
+			addTranslation(0, DecodePoString(lit))
 		case msgStrPlural:
 			if !hasID {
 				return nil, p.buildPosError()
@@ -230,15 +249,15 @@ loop:
 				return nil, fmt.Errorf("po file contains an invalid index for a plural translation (line %d)", p.s.pos)
 			}
 
-			if _, ok := msg.Str[idx]; ok {
+			if _, ok := translations[idx]; ok {
 				return nil, p.buildPosError()
 			}
 
 			line := lit[right+1:] // msgstr[x]
-			msg.Str[idx] = DecodePoString(line)
+			addTranslation(idx, DecodePoString(line))
 			lastIdx = idx
 		case msgStrPluralLine:
-			msg.Str[lastIdx] += DecodePoString(lit)
+			addTranslation(lastIdx, DecodePoString(lit))
 		default:
 			return nil, p.buildPosError()
 		}
@@ -247,6 +266,22 @@ loop:
 
 func (p *Parser) parseComment() (*Comment, error) {
 	comment := NewComment()
+
+	// The texts can be spread over any number of lines
+	var translator, extracted, prevContext, prevMsgID strings.Builder
+	addLine := func(text *strings.Builder, line string) {
+		if text.Len() > 0 {
+			text.WriteByte('\n')
+		}
+		text.WriteString(line)
+	}
+	discard := func() {
+		comment = NewComment()
+		for _, text := range []*strings.Builder{&translator, &extracted, &prevContext, &prevMsgID} {
+			text.Reset()
+		}
+	}
+
 	for {
 		tok, line := p.scan()
 
@@ -257,22 +292,14 @@ func (p *Parser) parseComment() (*Comment, error) {
 			return nil, p.buildPosError()
 		case whitespace:
 			// A comment followed by a blank line does not belong to a message
-			comment = NewComment()
+			discard()
 		case commentObsolete:
 			// The comments read so far belong to an obsolete message
-			comment = NewComment()
+			discard()
 		case commentTranslator:
-			line = strings.TrimSpace(line[1:]) // #
-			if comment.Translator != "" {
-				comment.Translator += "\n"
-			}
-			comment.Translator += line
+			addLine(&translator, strings.TrimSpace(line[1:])) // #
 		case commentExtracted:
-			line = strings.TrimSpace(line[2:]) // #.
-			if comment.Extracted != "" {
-				comment.Extracted += "\n"
-			}
-			comment.Extracted += line
+			addLine(&extracted, strings.TrimSpace(line[2:])) // #.
 		case commentFlags:
 			line = strings.TrimSpace(line[2:]) // #,
 			rawFlags := strings.FieldsFunc(line, func(r rune) bool { return unicode.IsSpace(r) || r == ',' })
@@ -282,19 +309,19 @@ func (p *Parser) parseComment() (*Comment, error) {
 			if line == "" {
 				continue
 			}
-			comment.PrevMsgContext += DecodePoString(line)
+			prevContext.WriteString(DecodePoString(line))
 		case commentPrevContextLine:
 			line = strings.TrimSpace(line[2:]) // #| "..."
-			comment.PrevMsgContext += DecodePoString(line)
+			prevContext.WriteString(DecodePoString(line))
 		case commentPrevMsgID:
 			line = strings.TrimSpace(line[strings.Index(line, "msgid")+5:]) // #| msgid
 			if line == "" {
 				continue
 			}
-			comment.PrevMsgID += DecodePoString(line)
+			prevMsgID.WriteString(DecodePoString(line))
 		case commentPrevMsgIDLine:
 			line = strings.TrimSpace(line[2:]) // #| "..."
-			comment.PrevMsgID += DecodePoString(line)
+			prevMsgID.WriteString(DecodePoString(line))
 		case commentPrevPlural, commentPrevPluralLine:
 			// The previous plural text is not stored
 		case commentReference:
@@ -305,6 +332,8 @@ func (p *Parser) parseComment() (*Comment, error) {
 			}
 		default:
 			p.unscan()
+			comment.Translator, comment.Extracted = translator.String(), extracted.String()
+			comment.PrevMsgContext, comment.PrevMsgID = prevContext.String(), prevMsgID.String()
 			return comment, nil
 		}
 	}
-- 
2.43.0


From e3b101528a263e0f799c69e3346ec947bec71938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:46 +0000
Subject: [PATCH 30/46] fix: a context separator within the plural text of a mo
 message starts no context

---
 internal/mo/parser.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/mo/parser.go b/internal/mo/parser.go
index fb76cc7..036dbf7 100644
--- a/internal/mo/parser.go
+++ b/internal/mo/parser.go
@@ -207,12 +207,6 @@ func (p *parser) parseMessages() (*po.File, error) {
 			continue
 		}
 
-		// Context
-		if idx := strings.Index(msg.ID, eotSeparator); idx != -1 {
-			msg.Context = msg.ID[:idx]
-			msg.ID = msg.ID[idx+1:]
-		}
-
 		// Plural
 		if idx := strings.Index(msg.ID, nulSeparator); idx != -1 {
 			msg.IDPlural = msg.ID[idx+1:]
@@ -222,6 +216,12 @@ func (p *parser) parseMessages() (*po.File, error) {
 			}
 		}
 
+		// Context, a separator in the plural text does not belong to it
+		if idx := strings.Index(msg.ID, eotSeparator); idx != -1 {
+			msg.Context = msg.ID[:idx]
+			msg.ID = msg.ID[idx+1:]
+		}
+
 		file.AddMessage(msg)
 	}
 
-- 
2.43.0


From 55519df67bdb6fe366bcf0f1856e18a923b10e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:11 +0000
Subject: [PATCH 31/46] fix: offer the Lithuanian texts for Lithuanian and not
 for Latvian

---
 humanize/locale/lt/locale.go | 16 ++++++++--------
 humanize/locale/lv/locale.go | 10 +++++-----
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/humanize/locale/lt/locale.go b/humanize/locale/lt/locale.go
index 6dff2c2..553f380 100644
--- a/humanize/locale/lt/locale.go
+++ b/humanize/locale/lt/locale.go
@@ -1,4 +1,4 @@
-package lv
+package lt
 
 import (
 	"embed"
@@ -13,16 +13,16 @@ var fsys embed.FS
 
 func New() *humanize.LocaleData {
 	return &humanize.LocaleData{
-		Lang: language.MustParse("lv"),
+		Lang: language.MustParse("lt"),
 		Fs:   fsys,
 		Format: &humanize.FormatData{
-			DateFormat:          `Y. \g\a\d\a j. F`,
+			DateFormat:          `Y \m. E j \d.`,
 			TimeFormat:          "H:i",
-			DateTimeFormat:      `Y. \g\a\d\a j. F, H:i`,
-			YearMonthFormat:     `Y. \g. F`,
-			MonthDayFormat:      "j. F",
-			ShortDateFormat:     `j.m.Y`,
-			ShortDatetimeFormat: "j.m.Y H:i",
+			DateTimeFormat:      `Y \m. E j \d., H:i`,
+			YearMonthFormat:     `Y \m. F`,
+			MonthDayFormat:      `E j \d.`,
+			ShortDateFormat:     "Y-m-d",
+			ShortDatetimeFormat: "Y-m-d H:i",
 			FirstDayOfWeek:      1,
 		},
 	}
diff --git a/humanize/locale/lv/locale.go b/humanize/locale/lv/locale.go
index 94272c8..dfd2967 100644
--- a/humanize/locale/lv/locale.go
+++ b/humanize/locale/lv/locale.go
@@ -16,13 +16,13 @@ func New() *humanize.LocaleData {
 		Lang: language.MustParse("lv"),
 		Fs:   fsys,
 		Format: &humanize.FormatData{
-			DateFormat:          "j. F Y",
+			DateFormat:          `Y. \g\a\d\a j. F`,
 			TimeFormat:          "H:i",
-			DateTimeFormat:      "j. F Y H:i",
-			YearMonthFormat:     "F Y",
+			DateTimeFormat:      `Y. \g\a\d\a j. F, H:i`,
+			YearMonthFormat:     `Y. \g. F`,
 			MonthDayFormat:      "j. F",
-			ShortDateFormat:     "d.m.Y",
-			ShortDatetimeFormat: "d.m.Y H:i",
+			ShortDateFormat:     "j.m.Y",
+			ShortDatetimeFormat: "j.m.Y H:i",
 			FirstDayOfWeek:      1,
 		},
 	}
-- 
2.43.0


From cb62222862604971652731af38562c2f0f875f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:11 +0000
Subject: [PATCH 32/46] fix: Vietnamese dates with time contain the hour

---
 humanize/locale/vi/locale.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/humanize/locale/vi/locale.go b/humanize/locale/vi/locale.go
index 36ccfc3..2af0fe1 100644
--- a/humanize/locale/vi/locale.go
+++ b/humanize/locale/vi/locale.go
@@ -18,7 +18,7 @@ func New() *humanize.LocaleData {
 		Format: &humanize.FormatData{
 			DateFormat:          `\N\gà\y d \t\há\n\g n \nă\m Y`,
 			TimeFormat:          "H:i",
-			DateTimeFormat:      `:i \N\gà\y d \t\há\n\g n \nă\m Y`,
+			DateTimeFormat:      `H:i \N\gà\y d \t\há\n\g n \nă\m Y`,
 			YearMonthFormat:     "F Y",
 			MonthDayFormat:      "j F",
 			ShortDateFormat:     "d-m-Y",
-- 
2.43.0


From c311afb3c3f6b32c0b1f0806404835ca69dbffe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:55 +0000
Subject: [PATCH 33/46] fix: show the abbreviation of the system's time zone
 instead of "Local"

---
 humanize/dateformat.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/humanize/dateformat.go b/humanize/dateformat.go
index d7e1656..60842b3 100644
--- a/humanize/dateformat.go
+++ b/humanize/dateformat.go
@@ -207,7 +207,13 @@ func (tf *timeFormatter) s() string {
 
 // T - Time zone of this machine; e.g. 'EST' or 'MDT'.
 func (tf *timeFormatter) T() string {
-	return time.Local.String()
+	if name := time.Local.String(); name != "Local" {
+		return name
+	}
+
+	// The system's time zone has no name of its own
+	zone, _ := tf.data.In(time.Local).Zone()
+	return zone
 }
 
 // u return microseconds; i.e. '000000' to '999999'.
-- 
2.43.0


From 0d435f793c86df74465fd3a202f0f9762f189894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:30 +0000
Subject: [PATCH 34/46] fix: choose the plural form of large words from all
 digits

---
 humanize/numbers.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/humanize/numbers.go b/humanize/numbers.go
index ef5faf6..7878f1a 100644
--- a/humanize/numbers.go
+++ b/humanize/numbers.go
@@ -113,10 +113,7 @@ func (h *Humanizer) Intword(i any) string {
 		}
 		if absValue < limit {
 			newValue := value / largeNumber
-			roundedValue := math.Ceil(newValue-1) + 1
-			if roundedValue < 0 {
-				roundedValue = math.Abs(math.Floor(newValue))
-			}
+			roundedValue := math.Ceil(math.Abs(newValue))
 			if roundedValue > maxPluralNumber {
 				// The last digits are sufficient to select the plural form
 				roundedValue = maxPluralNumber + math.Mod(roundedValue, maxPluralNumber)
-- 
2.43.0


From 2780ba1cf2264777508f6bc04cd876c1f017babe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 35/46] fix: keep the number in the Albanian, Belarusian,
 Hebrew, Marathi and Serbian texts

---
 humanize/locale/be/django.po     |  2 +-
 humanize/locale/he/django.po     |  7 +++++++
 humanize/locale/mr/django.po     |  2 +-
 humanize/locale/sq/django.po     | 20 ++++++++++----------
 humanize/locale/srLatn/django.po | 12 ++++++------
 5 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/humanize/locale/be/django.po b/humanize/locale/be/django.po
index dad3962..8f74dc0 100644
--- a/humanize/locale/be/django.po
+++ b/humanize/locale/be/django.po
@@ -27,7 +27,7 @@ msgstr[3] "%[1]d байтаў"
 
 msgid "%[1]s billion"
 msgid_plural "%[1]s billion"
-msgstr[0] "%(value).s мільярд"
+msgstr[0] "%[1]s мільярд"
 msgstr[1] "%[1]s мільярды"
 msgstr[2] "%[1]s мільярдаў"
 msgstr[3] "%[1]s мільярдаў"
diff --git a/humanize/locale/he/django.po b/humanize/locale/he/django.po
index 3e9dd05..95df586 100644
--- a/humanize/locale/he/django.po
+++ b/humanize/locale/he/django.po
@@ -28,6 +28,7 @@ msgid_plural "%[1]d bytes"
 msgstr[0] "בית %[1]d "
 msgstr[1] "%[1]d בתים"
 msgstr[2] "%[1]d בתים"
+msgstr[3] "%[1]d בתים"
 
 msgid "%[1]s billion"
 msgid_plural "%[1]s billion"
@@ -114,6 +115,7 @@ msgid_plural "%[1]v days"
 msgstr[0] "יום"
 msgstr[1] "יומיים"
 msgstr[2] "%[1]v ימים"
+msgstr[3] "%[1]v ימים"
 
 msgid "%[1]v from now"
 msgstr "בעוד %[1]v"
@@ -123,30 +125,35 @@ msgid_plural "%[1]v hours"
 msgstr[0] "שעה"
 msgstr[1] "שעתיים"
 msgstr[2] "%[1]v שעות"
+msgstr[3] "%[1]v שעות"
 
 msgid "%[1]v minute"
 msgid_plural "%[1]v minutes"
 msgstr[0] "דקה"
 msgstr[1] "%[1]v דקות"
 msgstr[2] "%[1]v דקות"
+msgstr[3] "%[1]v דקות"
 
 msgid "%[1]v month"
 msgid_plural "%[1]v months"
 msgstr[0] "חודש"
 msgstr[1] "חודשיים"
 msgstr[2] "%[1]v חודשים"
+msgstr[3] "%[1]v חודשים"
 
 msgid "%[1]v week"
 msgid_plural "%[1]v weeks"
 msgstr[0] "שבוע"
 msgstr[1] "שבועיים"
 msgstr[2] "%[1]v שבועות"
+msgstr[3] "%[1]v שבועות"
 
 msgid "%[1]v year"
 msgid_plural "%[1]v years"
 msgstr[0] "שנה"
 msgstr[1] "שנתיים"
 msgstr[2] "%[1]v שנים"
+msgstr[3] "%[1]v שנים"
 
 msgid "%s GB"
 msgstr "%s ג\"ב"
diff --git a/humanize/locale/mr/django.po b/humanize/locale/mr/django.po
index aa9380e..0af4dd8 100644
--- a/humanize/locale/mr/django.po
+++ b/humanize/locale/mr/django.po
@@ -839,4 +839,4 @@ msgstr "%vवा"
 
 msgctxt "ordinal 9"
 msgid "%vth"
-msgstr "{वा}"
+msgstr "%vवा"
diff --git a/humanize/locale/sq/django.po b/humanize/locale/sq/django.po
index 5902280..34252f3 100644
--- a/humanize/locale/sq/django.po
+++ b/humanize/locale/sq/django.po
@@ -801,7 +801,7 @@ msgstr[1] "%[1]v vjet"
 
 msgctxt "ordinal 0"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 1"
 msgid "%vst"
@@ -809,36 +809,36 @@ msgstr ""
 
 msgctxt "ordinal 11, 12, 13"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 2"
 msgid "%vnd"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 3"
 msgid "%vrd"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 4"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 5"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 6"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 7"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 8"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 9"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
diff --git a/humanize/locale/srLatn/django.po b/humanize/locale/srLatn/django.po
index 095b6a9..719fa7b 100644
--- a/humanize/locale/srLatn/django.po
+++ b/humanize/locale/srLatn/django.po
@@ -535,25 +535,25 @@ msgstr "velški"
 
 msgid "a minute ago"
 msgid_plural "%[1]v minutes ago"
-msgstr[0] "pre minut"
+msgstr[0] "pre %[1]v minut"
 msgstr[1] "pre %[1]v minuta"
 msgstr[2] "pre %[1]v minuta"
 
 msgid "a minute from now"
 msgid_plural "%[1]v minutes from now"
-msgstr[0] "minut od sad"
+msgstr[0] "%[1]v minut od sad"
 msgstr[1] "%[1]v minuta od sada"
 msgstr[2] "%[1]v minuta od sada"
 
 msgid "a second ago"
 msgid_plural "%[1]v seconds ago"
-msgstr[0] "pre sekund"
+msgstr[0] "pre %[1]v sekund"
 msgstr[1] "pre %[1]v sekunde"
 msgstr[2] "pre %[1]v sekundi"
 
 msgid "a second from now"
 msgid_plural "%[1]v seconds from now"
-msgstr[0] "sekund od sad"
+msgstr[0] "%[1]v sekund od sad"
 msgstr[1] "%[1]v sekunde od sada"
 msgstr[2] "%[1]v sekundi od sada"
 
@@ -562,13 +562,13 @@ msgstr "pre p."
 
 msgid "an hour ago"
 msgid_plural "%[1]v hours ago"
-msgstr[0] "pre sat"
+msgstr[0] "pre %[1]v sat"
 msgstr[1] "pre %[1]v sata"
 msgstr[2] "pre %[1]v sati"
 
 msgid "an hour from now"
 msgid_plural "%[1]v hours from now"
-msgstr[0] "sat od sad"
+msgstr[0] "%[1]v sat od sad"
 msgstr[1] "%[1]v sata od sada"
 msgstr[2] "%[1]v sati od sada"
 
-- 
2.43.0


From 219fcb48ab6a10a4e1b5a295c343962a36145607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 36/46] =?UTF-8?q?fix:=20find=20the=20translations=20of=20t?=
 =?UTF-8?q?he=20language=20name=20Norwegian=20Bokm=C3=A5l?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 humanize/helper_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/humanize/helper_table.go b/humanize/helper_table.go
index 794bffc..e309163 100644
--- a/humanize/helper_table.go
+++ b/humanize/helper_table.go
@@ -339,7 +339,7 @@ var LocaleInfos = map[string]LocaleInfo{
 	},
 	"nb": {
 		Code:      "nb",
-		Name:      "Norwegian Bokmal",
+		Name:      "Norwegian Bokmål",
 		NameLocal: "norsk (bokmål)",
 	},
 	"ne": {
-- 
2.43.0


From 4c67a571e927b8471879e62c326238052597f307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 37/46] fix: correct humanize texts that name a wrong unit,
 direction, month, day or half of the day

---
 humanize/locale/ckb/django.po |  2 +-
 humanize/locale/eo/django.po  |  2 +-
 humanize/locale/hy/django.po  |  4 ++--
 humanize/locale/pl/django.po  | 26 +++++++++++++-------------
 humanize/locale/sq/django.po  |  4 ++--
 humanize/locale/sv/django.po  |  8 ++++----
 humanize/locale/tg/django.po  |  2 +-
 humanize/locale/udm/django.po |  2 +-
 humanize/locale/ug/django.po  |  4 ++--
 9 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/humanize/locale/ckb/django.po b/humanize/locale/ckb/django.po
index 98aafc6..bd0815c 100644
--- a/humanize/locale/ckb/django.po
+++ b/humanize/locale/ckb/django.po
@@ -607,7 +607,7 @@ msgid "one"
 msgstr "یەک"
 
 msgid "p.m."
-msgstr "پ.ن"
+msgstr "د.ن"
 
 msgid "sep"
 msgstr "‎ڕەزبەر"
diff --git a/humanize/locale/eo/django.po b/humanize/locale/eo/django.po
index 9afae7f..aa47e0b 100644
--- a/humanize/locale/eo/django.po
+++ b/humanize/locale/eo/django.po
@@ -94,7 +94,7 @@ msgstr[0] "%[1]v tago"
 msgstr[1] "%[1]v tagoj"
 
 msgid "%[1]v from now"
-msgstr "antaŭ %[1]v"
+msgstr "post %[1]v"
 
 msgid "%[1]v hour"
 msgid_plural "%[1]v hours"
diff --git a/humanize/locale/hy/django.po b/humanize/locale/hy/django.po
index 640db74..c04d64a 100644
--- a/humanize/locale/hy/django.po
+++ b/humanize/locale/hy/django.po
@@ -512,7 +512,7 @@ msgid "four"
 msgstr "չորս"
 
 msgid "jan"
-msgstr "հուն"
+msgstr "հնվ"
 
 msgid "jul"
 msgstr "հուլ"
@@ -576,7 +576,7 @@ msgstr "երեկ"
 
 msgctxt "abbrev. month"
 msgid "April"
-msgstr "Մարտ"
+msgstr "Ապրիլ"
 
 msgctxt "abbrev. month"
 msgid "Aug."
diff --git a/humanize/locale/pl/django.po b/humanize/locale/pl/django.po
index b22223b..2001532 100644
--- a/humanize/locale/pl/django.po
+++ b/humanize/locale/pl/django.po
@@ -94,38 +94,38 @@ msgstr[3] "%[1]s kwadryliardów"
 
 msgid "%[1]s quadrillion"
 msgid_plural "%[1]s quadrillion"
-msgstr[0] "%[1]s kwadrylion"
+msgstr[0] "%[1]s biliard"
 msgstr[1] "%[1]s biliardy"
-msgstr[2] "%[1]s kwadrylionów"
-msgstr[3] "%[1]s kwadrylionów"
+msgstr[2] "%[1]s biliardów"
+msgstr[3] "%[1]s biliardów"
 
 msgid "%[1]s quintillion"
 msgid_plural "%[1]s quintillion"
 msgstr[0] "%[1]s trylion"
 msgstr[1] "%[1]s tryliony"
-msgstr[2] "%[1]s trylionyów"
-msgstr[3] "%[1]s trylionyów"
+msgstr[2] "%[1]s trylionów"
+msgstr[3] "%[1]s trylionów"
 
 msgid "%[1]s septillion"
 msgid_plural "%[1]s septillion"
-msgstr[0] "%[1]s septylion"
-msgstr[1] "%[1]s septyliony"
-msgstr[2] "%[1]s septylionów"
-msgstr[3] "%[1]s septylionów"
+msgstr[0] "%[1]s kwadrylion"
+msgstr[1] "%[1]s kwadryliony"
+msgstr[2] "%[1]s kwadrylionów"
+msgstr[3] "%[1]s kwadrylionów"
 
 msgid "%[1]s sextillion"
 msgid_plural "%[1]s sextillion"
-msgstr[0] " %[1]s tryliard"
+msgstr[0] "%[1]s tryliard"
 msgstr[1] "%[1]s tryliardy"
 msgstr[2] "%[1]s tryliardów"
 msgstr[3] "%[1]s tryliardów"
 
 msgid "%[1]s trillion"
 msgid_plural "%[1]s trillion"
-msgstr[0] "%[1]s kwintylion"
+msgstr[0] "%[1]s bilion"
 msgstr[1] "%[1]s biliony"
-msgstr[2] "%[1]s kwintylionów"
-msgstr[3] "%[1]s kwintylionów"
+msgstr[2] "%[1]s bilionów"
+msgstr[3] "%[1]s bilionów"
 
 msgid "%[1]v ago"
 msgstr "%[1]v temu"
diff --git a/humanize/locale/sq/django.po b/humanize/locale/sq/django.po
index 34252f3..020ea96 100644
--- a/humanize/locale/sq/django.po
+++ b/humanize/locale/sq/django.po
@@ -531,8 +531,8 @@ msgstr[1] "%[1]v sekonda më parë"
 
 msgid "a second from now"
 msgid_plural "%[1]v seconds from now"
-msgstr[0] "një sekondë më parë"
-msgstr[1] "%[1]v sekonda më parë"
+msgstr[0] "për një sekondë"
+msgstr[1] "për %[1]v sekonda"
 
 msgid "a.m."
 msgstr "a.m."
diff --git a/humanize/locale/sv/django.po b/humanize/locale/sv/django.po
index 057ed8f..de57e89 100644
--- a/humanize/locale/sv/django.po
+++ b/humanize/locale/sv/django.po
@@ -81,8 +81,8 @@ msgstr[1] "%[1]s biljarder"
 
 msgid "%[1]s quintillion"
 msgid_plural "%[1]s quintillion"
-msgstr[0] "%[1]s kvintiljon"
-msgstr[1] "%[1]s kvintiljoner"
+msgstr[0] "%[1]s triljon"
+msgstr[1] "%[1]s triljoner"
 
 msgid "%[1]s septillion"
 msgid_plural "%[1]s septillion"
@@ -96,8 +96,8 @@ msgstr[1] "%[1]s triljarder"
 
 msgid "%[1]s trillion"
 msgid_plural "%[1]s trillion"
-msgstr[0] "%[1]s triljon"
-msgstr[1] "%[1]s triljoner"
+msgstr[0] "%[1]s biljon"
+msgstr[1] "%[1]s biljoner"
 
 msgid "%[1]v ago"
 msgstr "%[1]v sedan"
diff --git a/humanize/locale/tg/django.po b/humanize/locale/tg/django.po
index 187f235..20880e3 100644
--- a/humanize/locale/tg/django.po
+++ b/humanize/locale/tg/django.po
@@ -434,7 +434,7 @@ msgid "Traditional Chinese"
 msgstr "Хитоӣ"
 
 msgid "Tue"
-msgstr "Яш"
+msgstr "Сш"
 
 msgid "Tuesday"
 msgstr "Сешанбе"
diff --git a/humanize/locale/udm/django.po b/humanize/locale/udm/django.po
index b878608..7b0b5d9 100644
--- a/humanize/locale/udm/django.po
+++ b/humanize/locale/udm/django.po
@@ -76,7 +76,7 @@ msgstr[0] ""
 msgstr[1] ""
 
 msgid "%s GB"
-msgstr "%s МБ"
+msgstr "%s ГБ"
 
 msgid "%s KB"
 msgstr "%s КБ"
diff --git a/humanize/locale/ug/django.po b/humanize/locale/ug/django.po
index bc3dda9..56f4921 100644
--- a/humanize/locale/ug/django.po
+++ b/humanize/locale/ug/django.po
@@ -68,8 +68,8 @@ msgstr[1] "%[1]s كۈيىنتىللىيون"
 
 msgid "%[1]s septillion"
 msgid_plural "%[1]s septillion"
-msgstr[0] "%[1]s سېكستىللىيون"
-msgstr[1] "%[1]s سېكستىللىيون"
+msgstr[0] "%[1]s سېپتىللىيون"
+msgstr[1] "%[1]s سېپتىللىيون"
 
 msgid "%[1]s sextillion"
 msgid_plural "%[1]s sextillion"
-- 
2.43.0


From 028c53100899dbbcfcb994b0a0542e47fb6aa501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:45 +0000
Subject: [PATCH 38/46] fix: CLDR rule generator: several ranges for an integer
 operand

The generated source called isIntInRange, which does not exist, so that it did not compile.
---
 catalog/cldrplural/generator/compiler.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/catalog/cldrplural/generator/compiler.go b/catalog/cldrplural/generator/compiler.go
index df507b9..99ebbb1 100644
--- a/catalog/cldrplural/generator/compiler.go
+++ b/catalog/cldrplural/generator/compiler.go
@@ -56,17 +56,17 @@ func compileNode(node ast.Node) string {
 
 		var b strings.Builder
 		if valueCount := len(valueRanges); valueCount > 0 {
-			if valueCount == 2 && !isFloatOperand {
-				b.WriteString(fmt.Sprintf("(%[1]s >= %[2]s && %[1]s <= %[3]s)", compiledExpr, valueRanges[0], valueRanges[1]))
-			} else {
-				if isFloatOperand {
-					b.WriteString(fmt.Sprintf("isFloatInRange(%s, ", compiledExpr))
-				} else {
-					b.WriteString(fmt.Sprintf("isIntInRange(%s, ", compiledExpr))
-				}
-
+			if isFloatOperand {
+				b.WriteString(fmt.Sprintf("isFloatInRange(%s, ", compiledExpr))
 				b.WriteString(strings.Join(valueRanges, ","))
 				b.WriteString(")")
+			} else {
+				for i := 0; i < valueCount; i += 2 {
+					if i > 0 {
+						b.WriteString(" || ")
+					}
+					b.WriteString(fmt.Sprintf("(%[1]s >= %[2]s && %[1]s <= %[3]s)", compiledExpr, valueRanges[i], valueRanges[i+1]))
+				}
 			}
 		}
 
-- 
2.43.0


From 9ce345be3d679a9322a6ada12163f9d847c013c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:45 +0000
Subject: [PATCH 39/46] fix: CLDR rule generator: keep the categories of equal
 rules apart

Rule sets with the same texts for different categories had the same hash, so that one
of them replaced the other.
---
 catalog/cldrplural/generator/json.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/catalog/cldrplural/generator/json.go b/catalog/cldrplural/generator/json.go
index 38c17ad..fda62f8 100644
--- a/catalog/cldrplural/generator/json.go
+++ b/catalog/cldrplural/generator/json.go
@@ -79,12 +79,11 @@ func (j *ruleJSON) ToData() []*ruleData {
 
 func (j *ruleJSON) hash() string {
 	h := sha256.New()
-	h.Write([]byte(j.Zero))
-	h.Write([]byte(j.One))
-	h.Write([]byte(j.Two))
-	h.Write([]byte(j.Few))
-	h.Write([]byte(j.Many))
-	h.Write([]byte(j.Other))
+	for _, rule := range []string{j.Zero, j.One, j.Two, j.Few, j.Many, j.Other} {
+		// The zero byte separates the rules, so that rules of different categories are not mixed up
+		h.Write([]byte(rule))
+		h.Write([]byte{0})
+	}
 	return hex.EncodeToString(h.Sum(nil))
 }
 
-- 
2.43.0


From d52e00beebbc113cc0385e7e8b3e28008da86155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:21 +0000
Subject: [PATCH 40/46] fix: do not read the rest of a previous text when a PO
 parser is used again after an error

---
 catalog/po/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index bd3a790..970b6be 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -53,6 +53,8 @@ func (p *Parser) SetIgnoreComments(ignore bool) { p.ignoreComments = ignore }
 func (p *Parser) reset() {
 	p.messages = make(Messages, avgContextsPerFile)
 	p.header = nil
+	// The last token may not have been consumed if the previous content could not be parsed
+	p.n = 0
 }
 
 func (p *Parser) Parse(r io.Reader) (*File, error) {
-- 
2.43.0


From b8155bc3fa3f10a0655268e33965f1743c7fd035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 41/46] fix: do not break words of comments that begin with
 white space

---
 catalog/po/wrap.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/catalog/po/wrap.go b/catalog/po/wrap.go
index bc853b9..a79fb8e 100644
--- a/catalog/po/wrap.go
+++ b/catalog/po/wrap.go
@@ -41,11 +41,6 @@ func wrapString(s string, pageWidth int) []string {
 					currentLine.Reset()
 					lastSpaceBuf.Reset()
 				}
-
-				if lastSpaceBuf.Len() > 0 {
-					lastSpaceBuf.WriteInto(currentLine)
-					currentWordBuf.WriteInto(currentLine)
-				}
 			}
 
 			currentWordBuf.WriteRune(char)
-- 
2.43.0


From a0c5be9b483a309fd1fb6eb10ca53baa411345ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:26 +0000
Subject: [PATCH 42/46] fix: accept the largest whole numbers written as text
 in CLDR plural rules

---
 catalog/cldrplural/cldr.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/catalog/cldrplural/cldr.go b/catalog/cldrplural/cldr.go
index f844e47..2401335 100644
--- a/catalog/cldrplural/cldr.go
+++ b/catalog/cldrplural/cldr.go
@@ -152,10 +152,6 @@ func newOperandsString(raw string) (*Operands, error) {
 	}
 
 	op.N = math.Abs(src)
-	if !(op.N < 1<<63) {
-		return nil, fmt.Errorf("number %q is too large", raw)
-	}
-	op.I = int64(op.N)
 
 	pointIdx := strings.Index(raw, ".")
 	intDigits := raw
@@ -165,6 +161,10 @@ func newOperandsString(raw string) (*Operands, error) {
 	// Integers are not subject to the limited precision of floating point numbers
 	if i, err := strconv.ParseInt(strings.TrimLeft(intDigits, "+-"), 10, 64); err == nil {
 		op.I = i
+	} else if op.N < 1<<63 {
+		op.I = int64(op.N)
+	} else {
+		return nil, fmt.Errorf("number %q is too large", raw)
 	}
 
 	if pointIdx >= 0 {
-- 
2.43.0


From 0b174f06b120a99eb28cc15e6282eda5e17d003e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 43/46] fix: accept a tab between a keyword and its text in PO
 files

The regular expressions allow any white space after msgctxt, msgid and
msgid_plural, but the check of the prefix in front of them required a blank.
---
 catalog/po/scanner.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/catalog/po/scanner.go b/catalog/po/scanner.go
index 34b62f3..4911ed0 100644
--- a/catalog/po/scanner.go
+++ b/catalog/po/scanner.go
@@ -21,9 +21,9 @@ var (
 	reMsgStrPlural = regexp.MustCompile(`^msgstr\s*(\[\d+])\s*".*"\s*$`) // msgstr[0]
 	reMsgLine      = regexp.MustCompile(`^\s*".*"\s*$`)                  // "message"
 
-	msgCtxPrefix      = "msgctxt "
-	msgIDPrefix       = "msgid "
-	msgIDPluralPrefix = "msgid_plural "
+	msgCtxPrefix      = "msgctxt"
+	msgIDPrefix       = "msgid"
+	msgIDPluralPrefix = "msgid_plural"
 	msgStrPrefix      = "msgstr"
 	emptyMessageStr   = `msgstr ""`
 )
-- 
2.43.0


From 2a307d551205a2971cacbb8649a413ff88d3a300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:01 +0000
Subject: [PATCH 44/46] fix: let WithSystemFs open files below the root path

---
 loader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/loader.go b/loader.go
index 3d050f4..6189eec 100644
--- a/loader.go
+++ b/loader.go
@@ -176,8 +176,8 @@ func WithPath(path string) FsOption {
 // WithSystemFs stores the root path as filesystem.
 // Lets the creation of the FilesystemLoader fail, if a filesystem was already deposited.
 //
-// Shorthand for WithPath("").
-func WithSystemFs() FsOption { return WithPath("") }
+// Shorthand for WithPath("/").
+func WithSystemFs() FsOption { return WithPath("/") }
 
 // WithResolver stores the resolver of a FilesystemLoader.
 // Lets the creation of the FilesystemLoader fail, if a Resolver was already deposited.
-- 
2.43.0


From 927a453400900e65c18e33f611480274794b2166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:19 +0000
Subject: [PATCH 45/46] fix: format dates whose month names print as empty text

---
 humanize/dateformat.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/humanize/dateformat.go b/humanize/dateformat.go
index 60842b3..4933e64 100644
--- a/humanize/dateformat.go
+++ b/humanize/dateformat.go
@@ -301,6 +301,9 @@ func (tf *timeFormatter) m() string {
 func (tf *timeFormatter) M() string {
 	text := months3[int(tf.data.Month())]
 	r := []rune(tf.loc.Get(text))
+	if len(r) == 0 {
+		return ""
+	}
 	return string(append([]rune{unicode.ToUpper(r[0])}, r[1:]...))
 }
 
-- 
2.43.0


From a6fef21df9a136747364071146370dc6cd3f56b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:11 +0000
Subject: [PATCH 46/46] fix: generate one rule for formulas that are written in
 different ways

---
 catalog/poplural/generator/json.go | 39 ++++++++++++++++++------------
 catalog/poplural/generator/main.go |  8 +++++-
 2 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/catalog/poplural/generator/json.go b/catalog/poplural/generator/json.go
index ec9667d..807279f 100644
--- a/catalog/poplural/generator/json.go
+++ b/catalog/poplural/generator/json.go
@@ -3,13 +3,13 @@ package main
 import (
 	"encoding/json"
 	"fmt"
+	"maps"
 	"os"
 	"path/filepath"
+	"slices"
 	"strconv"
 	"strings"
 	"unicode"
-
-	"github.com/vorlif/spreak/catalog/poplural/ast"
 )
 
 var pluralsFilePath = filepath.FromSlash(filepath.Join("./plurals.json"))
@@ -22,22 +22,21 @@ func readJSONRules() []*ruleData {
 	checkError(json.Unmarshal(data, &root))
 
 	rulesData := map[string]*ruleData{}
-	for lang, fileData := range root {
-		if rd, ok := rulesData[fileData.Formula]; ok {
-			rd.Languages = append(rd.Languages, lang)
+	for _, lang := range slices.Sorted(maps.Keys(root)) {
+		fileData := root[lang]
+		formula := fmt.Sprintf("nplurals=%d; plural=%s;", fileData.Plurals, fileData.Formula)
+		rd := newRuleData(formula)
+		rd.Examples = extractExamples(fileData.Cases, fileData.Examples)
+
+		// A formula can be written in different ways.
+		if known, ok := rulesData[rd.CompiledRaw]; ok {
+			known.Languages = append(known.Languages, lang)
+			known.addExamples(rd.Examples)
 			continue
 		}
 
-		formula := fmt.Sprintf("nplurals=%d; plural=%s;", fileData.Plurals, fileData.Formula)
-		parsed := ast.MustParse(formula)
-		rulesData[fileData.Formula] = &ruleData{
-			Languages:   []string{lang},
-			Raw:         formula,
-			Count:       fileData.Plurals,
-			Compiled:    compileForms(parsed),
-			CompiledRaw: ast.CompileToString(parsed),
-			Examples:    extractExamples(fileData.Cases, fileData.Examples),
-		}
+		rd.Languages = []string{lang}
+		rulesData[rd.CompiledRaw] = rd
 	}
 
 	res := make([]*ruleData, 0, len(rulesData))
@@ -86,6 +85,16 @@ func (d *ruleData) Name() string {
 	return b.String()
 }
 
+func (d *ruleData) addExamples(examples map[int][]string) {
+	for form, values := range examples {
+		for _, value := range values {
+			if !slices.Contains(d.Examples[form], value) {
+				d.Examples[form] = append(d.Examples[form], value)
+			}
+		}
+	}
+}
+
 func extractExamples(cases []string, data map[string]string) map[int][]string {
 
 	extracted := make(map[int][]string, len(data))
diff --git a/catalog/poplural/generator/main.go b/catalog/poplural/generator/main.go
index d561d87..814fda1 100644
--- a/catalog/poplural/generator/main.go
+++ b/catalog/poplural/generator/main.go
@@ -16,7 +16,13 @@ import (
 )
 
 func main() {
-	rules := append(readJSONRules(), getExtraRules()...)
+	rules := readJSONRules()
+	for _, extra := range getExtraRules() {
+		isKnown := slices.ContainsFunc(rules, func(r *ruleData) bool { return r.CompiledRaw == extra.CompiledRaw })
+		if !isKnown {
+			rules = append(rules, extra)
+		}
+	}
 
 	for _, r := range rules {
 		sort.Strings(r.Languages)
-- 
2.43.0

