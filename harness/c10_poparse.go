package main

import (
	"errors"
	"fmt"
	"io"
	"maps"
	"slices"
	"strings"
	"testing/iotest"

	"github.com/vorlif/spreak/catalog/po"

	"verifharness/fw"
	"verifharness/model"
)

// headerFields are the header names the library knows; arbitrary others go to UnknownFields.
var headerFields = []string{"Project-Id-Version", "Report-Msgid-Bugs-To", "POT-Creation-Date", "PO-Revision-Date", "Last-Translator", "Language-Team", "Language", "MIME-Version", "Content-Type", "Content-Transfer-Encoding", "Plural-Forms", "X-Generator"}

func genHeader(t *fw.T, c *model.Catalog, level int) {
	c.HasHeader = true
	seen := map[string]bool{}
	add := func(k, v string) {
		if seen[strings.ToLower(k)] {
			return
		}
		seen[strings.ToLower(k)] = true
		c.Header = append(c.Header, model.KV{K: k, V: v})
	}
	val := func() string {
		switch t.IntN(5) {
		case 0:
			return "plain"
		case 1:
			return "a: b; c=d <x@y.z>"
		case 2:
			return "nplurals=2; plural=(n != 1);"
		case 3:
			if level > 0 {
				return strings.Join(strings.Fields(strings.ReplaceAll(model.Text(t.Rand, 0, 4), "\u00a0", "")), " ") + `-"q" \ b`
			}
		}
		return strings.Join(strings.Fields(strings.ReplaceAll(model.Text(t.Rand, 0, 4), "\u00a0", "")), " ")
	}
	for _, f := range headerFields {
		if t.Chance(2) {
			v := val()
			if f == "Plural-Forms" {
				v = "nplurals=2; plural=(n != 1);"
			}
			add(f, v)
		}
	}
	if t.Chance(2) {
		add("X-"+model.Token(t.Rand, 4), val())
		add("X-Custom", val())
	}
	if t.Chance(3) {
		for _, i := range t.Perm(5)[:1+t.IntN(3)] {
			add([]string{"Custom", "Language-Code", "X-Language", "Generator", "Plural"}[i], val())
		}
	}
	if len(c.Header) == 0 {
		add("Language", "de")
	}
	if t.Chance(3) {
		c.HeaderNote = model.CommentLines(t.Rand, true)
	}
	if t.Chance(4) {
		c.HeaderFlag = []string{"fuzzy"}
	}
	if t.Chance(5) {
		c.HeaderOpen = true
		t.Count("open headers", 1)
	}
}

func headerValue(h *po.Header, k string) string {
	switch k {
	case "Project-Id-Version":
		return h.ProjectIDVersion
	case "Report-Msgid-Bugs-To":
		return h.ReportMsgidBugsTo
	case "POT-Creation-Date":
		return h.POTCreationDate
	case "PO-Revision-Date":
		return h.PORevisionDate
	case "Last-Translator":
		return h.LastTranslator
	case "Language-Team":
		return h.LanguageTeam
	case "Language":
		return h.Language
	case "MIME-Version":
		return h.MimeVersion
	case "Content-Type":
		return h.ContentType
	case "Content-Transfer-Encoding":
		return h.ContentTransferEncoding
	case "Plural-Forms":
		return h.PluralForms
	case "X-Generator":
		return h.XGenerator
	}
	return h.UnknownFields[k]
}

// diffFile compares a parsed file with the model. comments: compare comment texts too.
func diffFile(f *po.File, c *model.Catalog, comments bool) (key, msg string) {
	want := map[string]*model.Entry{}
	for _, e := range c.Entries {
		if !e.Obsolete {
			want[e.Ctx+"\x04"+e.ID] = e
		}
	}
	n := 0
	for ctx, ms := range f.Messages {
		for id, m := range ms {
			n++
			e := want[ctx+"\x04"+id]
			if e == nil {
				return "extra-entry", fmt.Sprintf("parsed entry ctx=%q id=%q is not in the model", ctx, id)
			}
			if m.Context != e.Ctx || m.ID != e.ID {
				return "entry-key", fmt.Sprintf("entry stored under ctx=%q id=%q says ctx=%q id=%q", ctx, id, m.Context, m.ID)
			}
			if m.IDPlural != e.Plural {
				return "plural-id", fmt.Sprintf("ctx=%q id=%q: plural id %q, want %q", ctx, id, m.IDPlural, e.Plural)
			}
			if !maps.Equal(m.Str, e.Str) {
				return "translations", fmt.Sprintf("ctx=%q id=%q: translations %q, want %q", ctx, id, m.Str, e.Str)
			}
			var flags []string
			if m.Comment != nil {
				flags = m.Comment.Flags
			}
			if !sameSet(flags, e.Flags) {
				return "flags", fmt.Sprintf("ctx=%q id=%q: flags %q, want %q", ctx, id, flags, e.Flags)
			}
			if comments {
				if k, s := diffComment(m.Comment, e); k != "" {
					return k, fmt.Sprintf("ctx=%q id=%q: %s", ctx, id, s)
				}
			}
			if g := f.GetMessage(ctx, id); g != m {
				return "get-message", fmt.Sprintf("GetMessage(%q,%q) does not return the stored entry", ctx, id)
			}
		}
	}
	if n != len(want) {
		for k, e := range want {
			ctx, _, _ := strings.Cut(k, "\x04")
			if f.GetMessage(ctx, e.ID) == nil {
				return "lost-entry", fmt.Sprintf("entry %s is lost (%d of %d parsed)", e, n, len(want))
			}
		}
	}
	if c.HasHeader {
		if f.Header == nil {
			return "header", "header is nil"
		}
		unknown := 0
		known := map[string]string{}
		for _, kv := range c.Header {
			if got := headerValue(f.Header, kv.K); got != kv.V {
				return "header", fmt.Sprintf("header %s = %q, want %q", kv.K, got, kv.V)
			}
			if got := f.Header.Get(strings.ToUpper(kv.K)); got != kv.V {
				return "header", fmt.Sprintf("Header.Get(%s) = %q, want %q", strings.ToUpper(kv.K), got, kv.V)
			}
			if !slices.Contains(headerFields, kv.K) {
				unknown++
			}
			known[kv.K] = kv.V
		}
		for _, k := range headerFields {
			if _, ok := known[k]; !ok && headerValue(f.Header, k) != "" {
				return "header", fmt.Sprintf("header %s = %q, want empty", k, headerValue(f.Header, k))
			}
		}
		if len(f.Header.UnknownFields) != unknown {
			return "header", fmt.Sprintf("unknown header fields %q, want %d", f.Header.UnknownFields, unknown)
		}
		if comments {
			got := ""
			var flags []string
			if f.Header.Comment != nil {
				got, flags = f.Header.Comment.Translator, f.Header.Comment.Flags
			}
			if got != strings.Join(c.HeaderNote, "\n") {
				return "header-comment", fmt.Sprintf("header comment %q, want %q", got, c.HeaderNote)
			}
			if !sameSet(flags, c.HeaderFlag) {
				return "header-flags", fmt.Sprintf("header flags %q, want %q", flags, c.HeaderFlag)
			}
		}
	}
	return "", ""
}

func sameSet(a, b []string) bool {
	x, y := slices.Clone(a), slices.Clone(b)
	slices.Sort(x)
	slices.Sort(y)
	return slices.Equal(x, y)
}

func diffComment(c *po.Comment, e *model.Entry) (string, string) {
	if c == nil {
		c = &po.Comment{}
	}
	if w := strings.Join(e.Translator, "\n"); c.Translator != w {
		return "translator-comment", fmt.Sprintf("translator comment %q, want %q", c.Translator, w)
	}
	if w := strings.Join(e.Extracted, "\n"); c.Extracted != w {
		return "extracted-comment", fmt.Sprintf("extracted comment %q, want %q", c.Extracted, w)
	}
	if c.PrevMsgContext != e.PrevCtx || c.PrevMsgID != e.PrevID {
		return "previous-id", fmt.Sprintf("previous ctx/id %q/%q, want %q/%q", c.PrevMsgContext, c.PrevMsgID, e.PrevCtx, e.PrevID)
	}
	var got, want []string
	for _, r := range c.References {
		l := r.Line
		if l <= 0 {
			l = -1
		}
		got = append(got, fmt.Sprintf("%s|%d", r.Path, l))
	}
	for _, r := range e.Refs {
		want = append(want, fmt.Sprintf("%s|%d", r.Path, r.Line))
	}
	if !sameSet(got, want) {
		return "references", fmt.Sprintf("references %q, want %q", got, want)
	}
	return "", ""
}

type chunked struct {
	s string
	n int
}

func (c *chunked) Read(p []byte) (int, error) {
	if len(c.s) == 0 {
		return 0, io.EOF
	}
	n := min(c.n, len(p), len(c.s))
	copy(p, c.s[:n])
	c.s = c.s[n:]
	return n, nil
}

func parseAll(t *fw.T, text string, c *model.Catalog, comments bool) {
	check := func(how string, f *po.File, err error, comments bool) {
		if err != nil {
			t.Fail("rejected", "%s: well-formed PO text rejected: %v", how, err)
		}
		if k, m := diffFile(f, c, comments); k != "" {
			t.Fail(k, "%s: %s", how, m)
		}
	}
	f, err := po.Parse([]byte(text))
	check("Parse", f, err, comments)
	f, err = po.ParseString(text)
	check("ParseString", f, err, comments)
	p := po.NewParser()
	p.SetIgnoreComments(true)
	f, err = p.Parse(&chunked{text, 1 + t.IntN(50)})
	check("Parser(ignoreComments)", f, err, false)
	for _, e := range c.Entries {
		if m := f.GetMessage(e.Ctx, e.ID); m != nil && m.Comment != nil {
			if c := m.Comment; c.Translator != "" || c.Extracted != "" || c.PrevMsgID != "" || c.PrevMsgContext != "" || len(c.References) > 0 {
				t.Fail("ignored-comments", "ctx=%q id=%q: comments are read although they are ignored: %+v", e.Ctx, e.ID, *c)
			}
		}
	}
	// a parser can be reused
	p.SetIgnoreComments(false)
	f, err = p.Parse(iotest.DataErrReader(strings.NewReader(text)))
	check("Parser(reused)", f, err, comments)
	// also after a text which could not be parsed
	for range 1 + t.IntN(2) {
		spoiled, how := spoiledPO(t)
		var r io.Reader = strings.NewReader(spoiled)
		if t.Chance(4) {
			r = io.MultiReader(strings.NewReader(spoiled[:t.IntN(len(spoiled)+1)]), iotest.ErrReader(errors.New("read error")))
			how += " and a read error"
		}
		if _, err := p.Parse(r); err != nil {
			t.Count("reused after an error", 1)
			f, err = p.Parse(strings.NewReader(text))
			check("Parser(reused after a text with "+how+")", f, err, comments)
			t.Eval(1)
		}
	}
	check("MustParse", po.MustParse([]byte(text)), nil, comments)
	t.Eval(4)
}

func init() {
	register(&fw.Check{
		ID: "C10", QuickScale: 2,
		Rule: "an abstract catalog (entries, contexts, plural forms, flags, comments, header) is drawn and written in a random PO layout (continuation lines, escapes, spacing, CRLF, comment order, missing/extra blank lines, long lines, obsolete blocks); parsing it with every entry point must give the model back. Non-trivial: at least two entries, distinct text.",
		Gens: []fw.Gen{
			{Name: "tool-layout", Quick: 1500, Thor: 60000, Run: func(t *fw.T) { c10case(t, model.Layout{CRLF: t.Chance(6)}) }},
			{Name: "any-layout", Quick: 6000, Thor: 400000, Run: func(t *fw.T) { c10case(t, model.RandLayout(t.Rand)) }},
			{Name: "long-lines", Quick: 60, Thor: 1500, Run: c10long},
			{Name: "many-entries", Quick: 20, Thor: 300, Run: c10many},
			{Name: "po-string", Quick: 6000, Thor: 300000, Run: c10string},
			{Name: "duplicates", Quick: 1000, Thor: 40000, Run: c10dup},
			{Name: "ill-formed", Quick: 3000, Thor: 100000, Run: c10bad},
		},
		MinNonTriv: 1000,
		Assumptions: []string{"well-formed means the PO syntax GNU gettext writes and accepts, restricted to one string literal per line and keywords followed by a blank or tab (msgstr may be followed directly by its literal)",
			"the text attached to obsolete (#~) blocks is not compared"},
	})
}

func c10case(t *fw.T, l model.Layout) {
	o := model.Opts{Level: t.IntN(3), Entries: 1 + t.IntN(7), Forms: 1 + t.IntN(6), Comments: t.Chance(2), Empty: t.Chance(3), Obsolete: t.Chance(4), SparseForms: t.Chance(4)}
	if !o.Comments && t.Chance(2) {
		o.NoFuzzy = true
	}
	c := model.Gen(t.Rand, o)
	if t.Chance(2) {
		genHeader(t, c, 1)
	}
	text := c.PO(t.Rand, l)
	t.Note("PO text:\n%s", text)
	nonObs := 0
	for _, e := range c.Entries {
		if !e.Obsolete {
			nonObs++
		}
	}
	if nonObs == 0 && !c.HasHeader {
		return // nothing but comments: an "empty" file
	}
	parseAll(t, text, c, true)
	t.Count("entries", nonObs)
	if nonObs >= 2 {
		t.Distinct(text)
		t.Sample("%q", text)
	}
}

func c10long(t *fw.T) {
	c := model.Gen(t.Rand, model.Opts{Level: 1, Entries: 4, Forms: 2})
	c.HasHeader = true
	c.Header = []model.KV{{K: "Language", V: "de"}}
	n := []int{4000, 65530, 65536, 70000, 200000, 1 << 20}[t.IntN(6)]
	e := c.Entries[t.IntN(len(c.Entries))]
	long := strings.Repeat(model.Text(t.Rand, 0, 5)+" ", 1+n/20)
	for len(long) < n {
		long += long
	}
	long = long[:n]
	long = strings.ToValidUTF8(long, "x")
	switch t.IntN(4) {
	case 0:
		e.ID = long + "k"
	case 1:
		e.Translator = []string{strings.TrimSpace("c" + long)}
	default:
		for k := range e.Str {
			e.Str[k] = long + "v"
			break
		}
	}
	text := c.PO(t.Rand, model.Layout{})
	t.Note("PO text with a line of %d bytes: %.300q", n, text)
	parseAll(t, text, c, true)
	t.Count("long-lines", 1)
	t.Distinct("long", n, t.Idx)
}

func c10many(t *fw.T) {
	c := model.Gen(t.Rand, model.Opts{Level: 1, Entries: 100 + t.IntN(1500), Forms: 4, Comments: true, Empty: true})
	genHeader(t, c, 1)
	text := c.PO(t.Rand, model.RandLayout(t.Rand))
	t.Note("PO text with %d entries: %.300q", len(c.Entries), text)
	parseAll(t, text, c, true)
	t.Count("entries", len(c.Entries))
	t.Distinct(text)
}

// c10string: the string decoder on its own.
func c10string(t *fw.T) {
	s := model.Text(t.Rand, 2, 8)
	l := model.Layout{Split: t.Chance(2), RawTabs: t.Chance(2), OctHex: t.Chance(2), OctBytes: t.Chance(3)}
	lit := model.Quoted(t.Rand, s, l)
	text := strings.Join(lit, "\n")
	t.Note("literal:\n%s", text)
	if got := po.DecodePoString(text); got != s {
		t.Fail("decode-string", "DecodePoString = %q, want %q", got, s)
	}
	for _, line := range lit {
		_ = line
		t.Eval(1)
	}
	t.Distinct("s", text)
}

// spoiledPO writes a small file with a single error somewhere.
func spoiledPO(t *fw.T) (text, how string) {
	c := model.Gen(t.Rand, model.Opts{Level: 0, Entries: 2 + t.IntN(3), Forms: 2, NoFuzzy: true})
	switch t.IntN(3) {
	case 0:
		genHeader(t, c, 0)
	case 1:
		genHeader(t, c, 0)
		h := *c
		h.Entries = nil
		return c.PO(t.Rand, model.Layout{}) + h.PO(t.Rand, model.Layout{}) + "\n" + c.PO(t.Rand, model.Layout{}), "two headers"
	}
	if t.Chance(2) {
		cp := *c.Entries[0]
		c.Entries = slices.Insert(c.Entries, t.IntN(len(c.Entries)+1), &cp)
		return c.PO(t.Rand, model.RandLayout(t.Rand)), "a duplicate entry"
	}
	lines := strings.Split(strings.TrimRight(c.PO(t.Rand, model.Layout{}), "\n"), "\n")
	bad := fw.Pick(t, []string{`msgid abc`, `msgstr[x] "a"`, `msgstr[99999999999999999999] "x"`, `msgidx "a"`, `abc`, `msgstr "x"`, `msgstr[0] "x"`})
	lines = slices.Insert(lines, t.IntN(len(lines)+1), bad)
	return strings.Join(lines, "\n") + "\n", "the line " + bad
}

func c10dup(t *fw.T) {
	c := model.Gen(t.Rand, model.Opts{Level: 1, Entries: 2 + t.IntN(5), Forms: 3, NoFuzzy: true})
	if t.Chance(2) {
		genHeader(t, c, 0)
	}
	src := c.Entries[t.IntN(len(c.Entries))]
	cp := *src
	switch t.IntN(4) {
	case 0:
		cp.Str = map[int]string{0: ""}
	case 1: // the other one is not translated
		for i := range src.Str {
			src.Str[i] = ""
		}
		fallthrough
	default:
		cp.Str = map[int]string{0: "other"}
	}
	if t.Chance(2) || !cp.HasPlural {
		cp.HasPlural, cp.Plural = false, ""
	}
	pos := t.IntN(len(c.Entries) + 1)
	c.Entries = slices.Insert(c.Entries, pos, &cp)
	text := c.PO(t.Rand, model.RandLayout(t.Rand))
	t.Note("PO text with duplicate %s:\n%s", src, text)
	for _, ign := range []bool{false, true} {
		p := po.NewParser()
		p.SetIgnoreComments(ign)
		if f, err := p.Parse(strings.NewReader(text)); err == nil {
			t.Fail("duplicate-accepted", "duplicate entry accepted (ignoreComments=%v): %d contexts", ign, len(f.Messages))
		} else if f != nil {
			t.Fail("file-and-error", "both a file and an error")
		}
	}
	t.Distinct("dup", text)
}

// c10bad: a single damaged line inside a well-formed file must be an error.
func c10bad(t *fw.T) {
	c := model.Gen(t.Rand, model.Opts{Level: 0, Entries: 2 + t.IntN(4), Forms: 2, NoFuzzy: true})
	genHeader(t, c, 0)
	lines := strings.Split(strings.TrimRight(c.PO(t.Rand, model.Layout{}), "\n"), "\n")
	bad := fw.Pick(t, []string{`msgid`, `msgid abc`, `msgid "abc`, `msgid abc"`, `msgstr`, `msgstr[x] "a"`, `msgstr[ "a"`, `msgstr[-1] "a"`, `msgstr[] "a"`, `foo "bar"`, `msgidx "a"`, `"abc`, `abc"`, `abc`, `msgctxt`, `msgctxt x`, `msgid_plural x`, `msgstr 0 "x"`, `MSGID "x"`, `domain "x`, `=`, `"`, `msgstr[99999999999999999999] "x"`, `msgid "abc\"`, `"abc\"`, `"\"`, `msgid "a\\\"`, `msgctxt "\"`})
	// never directly in front of nothing: insert anywhere
	pos := t.IntN(len(lines) + 1)
	lines = slices.Insert(lines, pos, bad)
	text := strings.Join(lines, "\n") + "\n"
	t.Note("bad line %q at %d in:\n%s", bad, pos+1, text)
	f, err := po.ParseString(text)
	if err == nil {
		t.Fail("ill-formed-accepted", "ill-formed line %q accepted", bad)
	}
	if f != nil {
		t.Fail("file-and-error", "both a file and an error")
	}
	t.Count("rejected", 1)
	t.Distinct("bad", text)
}
