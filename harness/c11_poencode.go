package main

import (
	"bytes"
	"errors"
	"fmt"
	"maps"
	"math/rand/v2"
	"slices"
	"strings"

	"github.com/vorlif/spreak/catalog/po"

	"verifharness/fw"
	"verifharness/model"
)

// fileOf builds the library's structure from a model.
func fileOf(c *model.Catalog, r *rand.Rand) *po.File {
	f := po.NewFile()
	for _, i := range r.Perm(len(c.Entries)) {
		e := c.Entries[i]
		m := po.NewMessage()
		m.Context, m.ID, m.IDPlural, m.Str = e.Ctx, e.ID, e.Plural, maps.Clone(e.Str)
		if len(e.Translator)+len(e.Extracted)+len(e.Refs)+len(e.Flags)+len(e.PrevCtx)+len(e.PrevID) == 0 && r.IntN(2) == 0 {
			m.Comment = nil
		} else {
			m.Comment.Translator = strings.Join(e.Translator, "\n")
			m.Comment.Extracted = strings.Join(e.Extracted, "\n")
			m.Comment.Flags = slices.Clone(e.Flags)
			m.Comment.PrevMsgContext, m.Comment.PrevMsgID = e.PrevCtx, e.PrevID
			for _, rf := range e.Refs {
				m.Comment.References = append(m.Comment.References, &po.Reference{Path: rf.Path, Line: rf.Line})
			}
		}
		f.AddMessage(m)
	}
	if c.HasHeader {
		for _, kv := range c.Header {
			f.Header.Set(kv.K, kv.V)
		}
		if len(c.HeaderNote)+len(c.HeaderFlag) > 0 {
			f.Header.Comment = &po.Comment{Translator: strings.Join(c.HeaderNote, "\n"), Flags: slices.Clone(c.HeaderFlag)}
		}
	}
	return f
}

type encSettings struct {
	wrap                      int
	header, emptyHeader, refs bool
	sort                      int
}

func (s encSettings) apply(e *po.Encoder) {
	e.SetWrapWidth(s.wrap)
	e.SetWriteHeader(s.header)
	e.SetWriteEmptyHeader(s.emptyHeader)
	e.SetWriteReferences(s.refs)
	switch s.sort {
	case 1:
		e.SetSortFunction(func(a, b *po.Message) int {
			return -strings.Compare(a.Context+"\x00"+a.ID, b.Context+"\x00"+b.ID)
		})
	case 2:
		e.SetSortFunction(nil)
	}
}

// normSpace: the text of a comment with whitespace (and so line wrapping) removed from the comparison.
func normSpace(s string) string { return strings.Join(strings.Fields(s), " ") }

func compareEncoded(f *po.File, c *model.Catalog, s encSettings) (string, string) {
	want := map[string]*model.Entry{}
	for _, e := range c.Entries {
		want[e.Ctx+"\x04"+e.ID] = e
	}
	n := 0
	for ctx, ms := range f.Messages {
		for id, m := range ms {
			n++
			e := want[ctx+"\x04"+id]
			if e == nil {
				return "extra-entry", fmt.Sprintf("entry ctx=%q id=%q was never written", ctx, id)
			}
			if m.IDPlural != e.Plural {
				return "plural-id", fmt.Sprintf("%s: plural id %q", e, m.IDPlural)
			}
			for k, v := range m.Str {
				if v != e.Str[k] {
					return "translations", fmt.Sprintf("%s: translation %d is %q", e, k, v)
				}
			}
			for k, v := range e.Str {
				if v != m.Str[k] {
					return "translations", fmt.Sprintf("%s: translation %d is %q", e, k, m.Str[k])
				}
			}
			cm := m.Comment
			if cm == nil {
				cm = &po.Comment{}
			}
			if !sameSet(cm.Flags, e.Flags) {
				return "flags", fmt.Sprintf("%s: flags %q", e, cm.Flags)
			}
			eq := func(a string, b []string) bool {
				if s.wrap <= 0 {
					return a == strings.Join(b, "\n")
				}
				return normSpace(a) == normSpace(strings.Join(b, "\n"))
			}
			if !eq(cm.Translator, e.Translator) {
				return "translator-comment", fmt.Sprintf("%s: translator comment %q, want %q", e, cm.Translator, e.Translator)
			}
			if !eq(cm.Extracted, e.Extracted) {
				return "extracted-comment", fmt.Sprintf("%s: extracted comment %q, want %q", e, cm.Extracted, e.Extracted)
			}
			if cm.PrevMsgContext != e.PrevCtx || cm.PrevMsgID != e.PrevID {
				return "previous", fmt.Sprintf("%s: previous %q %q, want %q %q", e, cm.PrevMsgContext, cm.PrevMsgID, e.PrevCtx, e.PrevID)
			}
			var got, wantR []string
			for _, r := range cm.References {
				got = append(got, fmt.Sprintf("%s|%d", r.Path, max(r.Line, 0)))
			}
			if s.refs {
				for _, r := range e.Refs {
					wantR = append(wantR, fmt.Sprintf("%s|%d", r.Path, max(r.Line, 0)))
				}
			}
			if !sameSet(got, wantR) {
				return "references", fmt.Sprintf("%s: references %q, want %q", e, got, wantR)
			}
		}
	}
	if n != len(want) {
		return "lost-entry", fmt.Sprintf("%d entries read, %d written", n, len(want))
	}
	if !c.HasHeader || !s.header {
		if h := f.Header; h != nil {
			for _, k := range headerFields {
				if headerValue(h, k) != "" {
					return "header", fmt.Sprintf("header %s = %q was not to be written", k, headerValue(h, k))
				}
			}
		}
		return "", ""
	}
	for _, kv := range c.Header {
		if got := headerValue(f.Header, kv.K); got != kv.V {
			return "header", fmt.Sprintf("header %s = %q, want %q", kv.K, got, kv.V)
		}
	}
	for _, k := range headerFields {
		if v := headerValue(f.Header, k); v != c.Get(k) {
			return "header", fmt.Sprintf("header %s = %q, want %q", k, v, c.Get(k))
		}
	}
	unknown := 0
	for _, kv := range c.Header {
		if !slices.Contains(headerFields, kv.K) {
			unknown++
		}
	}
	if len(f.Header.UnknownFields) != unknown {
		return "header", fmt.Sprintf("unknown header fields %q, want %d", f.Header.UnknownFields, unknown)
	}
	var fl []string
	tr := ""
	if f.Header.Comment != nil {
		fl, tr = f.Header.Comment.Flags, f.Header.Comment.Translator
	}
	if !sameSet(fl, c.HeaderFlag) || normSpace(tr) != normSpace(strings.Join(c.HeaderNote, "\n")) {
		return "header-comment", fmt.Sprintf("header comment %q flags %q, want %q %q", tr, fl, c.HeaderNote, c.HeaderFlag)
	}
	return "", ""
}

// nbspComment: trailing no-break spaces of wrapped comment lines are trimmed when read.
func nbspComment(c *model.Catalog) bool {
	all := slices.Clone(c.HeaderNote)
	for _, e := range c.Entries {
		all = append(append(all, e.Translator...), e.Extracted...)
	}
	return strings.Contains(strings.Join(all, ""), "\u00a0")
}

var wrapWidths = []int{-1, -1, 0, 1, 2, 3, 5, 8, 15, 20, 40, 76, 80, 200, 10000}

func c11case(t *fw.T) {
	o := model.Opts{Level: t.IntN(3), Entries: t.IntN(8), Forms: 1 + t.IntN(6), Comments: t.Chance(2), Empty: t.Chance(3), SparseForms: t.Chance(4), LongText: t.Chance(3)}
	c := model.Gen(t.Rand, o)
	for _, e := range c.Entries {
		for i := range e.Refs {
			if t.Chance(8) {
				e.Refs[i].Path = fw.Pick(t, []string{`C:\src\x.go`, "http://h/x.go", "a:b", "x:go"})
			}
		}
	}
	genHeader(t, c, 1)
	switch {
	case t.Chance(6):
		c.Header = nil
	case len(c.Header) > 1 && t.Chance(8): // a single field, which may be one the library does not know
		i := t.IntN(len(c.Header))
		c.Header = c.Header[i : i+1]
	}
	s := encSettings{fw.Pick(t, wrapWidths), !t.Chance(6), !t.Chance(4), !t.Chance(4), 0}
	if t.Chance(4) {
		s.sort = 1 + t.IntN(2)
	}
	f := fileOf(c, t.Rand)
	set := s
	var buf bytes.Buffer
	enc := po.NewEncoder(&buf)
	s.apply(enc)
	if err := enc.Encode(f); err != nil {
		t.Fail("encode-error", "Encode: %v", err)
	}
	out := buf.String()
	t.Note("settings %+v, encoded:\n%s", s, out)
	hasValues := slices.ContainsFunc(c.Header, func(kv model.KV) bool { return kv.V != "" })
	headerWritten := s.header && (s.emptyHeader || hasValues)
	if !headerWritten && len(c.Entries) == 0 {
		return // nothing (or only a comment) was written
	}
	if !headerWritten {
		s.header = false // the header was left out on request
	}
	g, err := po.ParseString(out)
	if err != nil {
		t.Fail("unreadable", "the encoded file cannot be parsed: %v", err)
	}
	if k, m := compareEncoded(g, c, s); k != "" {
		t.Fail(k, "%s", m)
	}
	t.Eval(1)
	if s.sort != 2 && s.refs && headerWritten && !(s.wrap > 0 && nbspComment(c)) {
		var buf2 bytes.Buffer
		enc2 := po.NewEncoder(&buf2)
		s.apply(enc2)
		if err := enc2.Encode(g); err != nil {
			t.Fail("encode-error", "second Encode: %v", err)
		}
		if buf2.String() != out {
			t.Fail("not-idempotent", "encoding the parsed output again gives:\n%s", buf2.String())
		}
		t.Eval(1)
	}
	if s.sort != 2 && t.Chance(2) { // one encoder writes several files: each as a new encoder would
		var all bytes.Buffer
		enc := po.NewEncoder(&all)
		set.apply(enc)
		small := po.NewFile()
		small.AddMessage(&po.Message{ID: "other", Str: map[int]string{0: "x"}})
		for i, x := range []*po.File{f, small, f, g}[:2+t.IntN(3)] {
			want, n := out, all.Len()
			if x != f {
				var one bytes.Buffer
				e := po.NewEncoder(&one)
				set.apply(e)
				if err := e.Encode(x); err != nil {
					t.Fail("encode-error", "Encode: %v", err)
				}
				want = one.String()
			}
			if err := enc.Encode(x); err != nil {
				t.Fail("encode-error", "Encode of file %d: %v", i, err)
			}
			if got := all.String()[n:]; got != want {
				t.Fail("encoder-reused", "file %d written by one encoder:\n%s\nwant\n%s", i, got, want)
			}
		}
		t.Count("encoders reused", 1)
	}
	if s == (encSettings{-1, true, true, true, 0}) {
		b, err := po.Marshal(f)
		if err != nil || string(b) != out {
			t.Fail("marshal", "Marshal (%v) differs from a default encoder:\n%s", err, b)
		}
		small := po.NewFile()
		small.AddMessage(&po.Message{ID: "other"})
		for _, other := range []*po.File{g, small} {
			if b2, err := po.Marshal(other); err != nil || string(b) != out {
				t.Fail("marshal-reused", "encoding another file (%v) changes the bytes of the first one to:\n%s", err, b)
			} else {
				clear(b2)
			}
		}
		if b, err := po.Marshal(f); err != nil || string(b) != out {
			t.Fail("marshal-again", "Marshal gives the second time (%v):\n%s", err, b)
		}
		t.Count("marshal", 1)
	}
	if len(c.Entries) >= 2 {
		t.Distinct(out)
		t.Sample("%+v %q", s, out)
	}
}

func c11string(t *fw.T) {
	s := model.Text(t.Rand, 2, 1+t.IntN(40))
	if t.Chance(3) {
		b := make([]rune, t.IntN(30))
		for i := range b {
			b[i] = fw.Pick(t, []rune{' ', ' ', '\n', '\t', 'a', 'b', '"', '\\', '\u00a0', '\u2003', 'é', '日', '\r', 'x', '1', 0x1b, 0, '\u0085'})
		}
		s = string(b)
	}
	if t.Chance(50) {
		s = ""
	}
	t.Note("text %q", s)
	for _, w := range []int{-1, 0, 1, 2, 4, 7, 12, 30, 60, 76, 1000, 1 + t.IntN(100)} {
		e := po.EncodePoString(s, w)
		if d := po.DecodePoString(e); d != s {
			t.Fail("string-roundtrip", "width %d: encoded\n%s\ndecodes to %q", w, e, d)
		}
		for _, l := range strings.Split(e, "\n") {
			if len(l) < 2 || l[0] != '"' || l[len(l)-1] != '"' {
				t.Fail("string-lines", "width %d: line %q of\n%s", w, l, e)
			}
			for _, r := range l {
				if r < ' ' {
					t.Fail("raw-control", "width %d: raw control character in %q", w, l)
				}
			}
		}
		// embedded in a file
		if f, err := po.ParseString("msgid \"k\"\nmsgstr " + e + "\n"); err != nil {
			t.Fail("string-unreadable", "width %d: %v in\n%s", w, err, e)
		} else if got := f.GetMessage("", "k").Str[0]; got != s {
			t.Fail("string-roundtrip", "width %d: read from a file as %q", w, got)
		}
		t.Eval(1)
	}
	t.Distinct("s", s)
}

// trimmedLines: the lines of a text without the white space around them and around the text.
func trimmedLines(s string) string {
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		lines[i] = strings.TrimSpace(l)
	}
	return strings.TrimSpace(strings.Join(lines, "\n"))
}

// c11comment: in comments with any white space the words stay as they are, whatever the width.
func c11comment(t *fw.T) {
	text := func() string {
		var b strings.Builder
		for i := t.IntN(12); i >= 0; i-- {
			switch t.IntN(8) {
			case 0:
				b.WriteString("\n")
			case 1:
				b.WriteString(strings.Repeat(" ", 1+t.IntN(12)))
			case 2:
				b.WriteString(fw.Pick(t, []string{"\n  ", "\t", "\n\n", " \n", "\u2003", "\n\t\t"}))
			default:
				b.WriteString(" ")
			}
			b.WriteString(strings.Repeat(fw.Pick(t, []string{"x", "ab", "é", "日", "q.", "w-"}), 1+t.IntN(20)))
			if t.Chance(6) {
				b.WriteString(strings.Repeat("L", 60+t.IntN(60)))
			}
		}
		if t.Chance(3) {
			return strings.TrimSpace(b.String())
		}
		return b.String()
	}
	m := po.NewMessage()
	m.ID, m.Str = "a", map[int]string{0: "b"}
	m.Comment = &po.Comment{Translator: text(), Extracted: text()}
	f := po.NewFile()
	f.AddMessage(m)
	words := func(s string) string { return strings.Join(strings.Fields(s), " ") }
	t.Note("translator %q\nextracted %q", m.Comment.Translator, m.Comment.Extracted)
	for _, w := range []int{-1, 0, 1 + t.IntN(12), 20, 1 + t.IntN(100), 76, 200} {
		var buf bytes.Buffer
		enc := po.NewEncoder(&buf)
		enc.SetWrapWidth(w)
		if err := enc.Encode(f); err != nil {
			t.Fail("encode-error", "Encode: %v", err)
		}
		g, err := po.ParseString(buf.String())
		if err != nil {
			t.Fail("unreadable", "width %d: the encoded file cannot be parsed: %v\n%s", w, err, buf.String())
		}
		t.Eval(1)
		c := g.GetMessage("", "a").Comment
		if c == nil {
			c = &po.Comment{}
		}
		if w < 1 { // without wrapping the lines stay, also empty ones
			for _, p := range [][2]string{{m.Comment.Translator, c.Translator}, {m.Comment.Extracted, c.Extracted}} {
				if want := trimmedLines(p[0]); trimmedLines(p[1]) != want {
					t.Fail("comment-lines", "width %d: a comment is read with the lines %q, want %q, from\n%s", w, trimmedLines(p[1]), want, buf.String())
				} else if strings.Contains(want, "\n\n") {
					t.Count("comments with empty lines", 1)
				}
			}
		}
		if words(c.Translator) != words(m.Comment.Translator) {
			t.Fail("comment-words", "width %d: translator comment is read as %q from\n%s", w, c.Translator, buf.String())
		}
		if words(c.Extracted) != words(m.Comment.Extracted) {
			t.Fail("comment-words", "width %d: extracted comment is read as %q from\n%s", w, c.Extracted, buf.String())
		}
	}
	t.Count("comments with any white space", 1)
	t.Distinct("c", m.Comment.Translator, m.Comment.Extracted)
	t.Sample("comment %q", m.Comment.Translator)
}

// c11placeholder: the header for a new file is written and read back.
func c11placeholder(t *fw.T) {
	word := func() string {
		return strings.Join(strings.Fields(model.Text(t.Rand, 1, 1+t.IntN(4))), " ")
	}
	f := po.NewFile()
	pkg, holder, bugs := "p"+word(), "h"+word(), "b"+word()
	h := po.PlaceholderHeader(pkg, holder, bugs)
	f.Header = h
	t.Note("package %q holder %q bugs %q", pkg, holder, bugs)
	if h.ProjectIDVersion != pkg || h.ReportMsgidBugsTo != bugs || !strings.Contains(h.Comment.Translator, pkg) || !strings.Contains(h.Comment.Translator, holder) {
		t.Fail("placeholder", "PlaceholderHeader(%q, %q, %q) = %+v", pkg, holder, bugs, h)
	}
	b, err := po.Marshal(f)
	if err != nil {
		t.Fail("encode-error", "Marshal: %v", err)
	}
	g, err := po.Parse(b)
	if err != nil {
		t.Fail("unreadable", "the placeholder cannot be parsed: %v\n%s", err, b)
	}
	for _, k := range headerFields {
		if a, b := headerValue(h, k), headerValue(g.Header, k); a != b {
			t.Fail("header", "header %s = %q is read as %q", k, a, b)
		}
	}
	if c := g.Header.Comment; c == nil || normSpace(c.Translator) != normSpace(h.Comment.Translator) || !sameSet(c.Flags, h.Comment.Flags) {
		t.Fail("header-comment", "header comment %+v is read as %+v", h.Comment, c)
	}
	t.Eval(1)
	t.Distinct("h", pkg, holder, bugs)
}

type failWriter struct {
	left int
	err  error
}

func (w *failWriter) Write(p []byte) (int, error) {
	if len(p) <= w.left {
		w.left -= len(p)
		return len(p), nil
	}
	n := w.left
	w.left = 0
	return n, w.err
}

func c11writer(t *fw.T) {
	c := model.Gen(t.Rand, model.Opts{Level: 1, Entries: 1 + t.IntN(6), Forms: 3, Comments: true})
	genHeader(t, c, 1)
	f := fileOf(c, t.Rand)
	all, err := po.Marshal(f)
	if err != nil {
		t.Fail("encode-error", "%v", err)
	}
	cause := errors.New("disk full")
	k := t.IntN(len(all))
	if err := po.NewEncoder(&failWriter{k, cause}).Encode(f); !errors.Is(err, cause) {
		t.Fail("write-error-lost", "writer failing after %d of %d bytes: Encode returns %v", k, len(all), err)
	}
	if err := po.NewEncoder(&failWriter{len(all), cause}).Encode(f); err != nil {
		t.Fail("spurious-error", "writer with exactly enough space: %v", err)
	}
	if err := po.NewEncoder(&bytes.Buffer{}).Encode(nil); err == nil {
		t.Fail("nil-file", "Encode(nil) does not fail")
	}
	t.Count("writer-faults", 1)
	t.Distinct("w", k, string(all))
}

func init() {
	register(&fw.Check{
		ID:   "C11",
		Rule: "a PO structure is built from a drawn model (hostile texts, all comment kinds, sparse plural forms, headers), encoded with drawn encoder settings, parsed and compared with the model; the parsed structure is encoded again and compared byte by byte; texts go through EncodePoString/DecodePoString for many widths; writers fail at a drawn byte. Non-trivial: at least two entries, distinct output.",
		Gens: []fw.Gen{
			{Name: "file", Quick: 6000, Thor: 400000, Run: c11case},
			{Name: "string", Quick: 6000, Thor: 400000, Run: c11string},
			{Name: "writer", Quick: 1000, Thor: 30000, Run: c11writer},
			{Name: "comment", Quick: 3000, Thor: 150000, Run: c11comment},
			{Name: "placeholder", Quick: 300, Thor: 10000, Run: c11placeholder},
		},
		MinNonTriv: 1000,
		Need:       []string{"writer-faults", "marshal", "comments with any white space"},
		Assumptions: []string{"texts are valid UTF-8; header values and comment lines carry no leading or trailing white space and header values no line break (PO cannot represent them)",
			"reference paths are non-empty without white space and do not end in ':<digits>'; flags without white space or commas", "an absent plural form and an empty one are the same",
			"with a wrap width comments are compared up to white space; reference columns are not part of the PO format"},
	})
}
