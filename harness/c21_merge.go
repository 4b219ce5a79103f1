package main

import (
	"fmt"
	"maps"
	"slices"
	"sort"
	"strings"
	"unicode"

	"github.com/vorlif/spreak/catalog/po"

	"verifharness/fw"
	"verifharness/model"
)

// mmsg is one message as a program adds it.
type mmsg struct {
	Ctx, ID, Plural       string
	Str                   map[int]string
	Translator, Extracted []string
	Flags                 []string
	Refs                  []po.Reference
	PrevCtx, PrevID       string
	NoComment             bool
}

var (
	mergeFlags = []string{"fuzzy", "c-format", "go-format", "no-wrap", "range:0..10", "a", "A", "C-format", "Z", "ä"}
	mergePaths = []string{"a.go", "b.go", "b/a.go", "Z.go", "ä.go", "a b.go"}
)

func genMergeMsg(t *fw.T, keys [][3]string, serial int) mmsg {
	k := fw.Pick(t, keys)
	m := mmsg{Ctx: k[0], ID: k[1], Str: map[int]string{}}
	if k[2] != "" && !t.Chance(3) {
		m.Plural = k[2]
		if t.Chance(6) { // not what the others have
			m.Plural = fw.Pick(t, []string{"cs", k[2] + "es", k[2] + " "})
		}
	}
	if !t.Chance(3) {
		m.Str[0] = fmt.Sprintf("T%d", serial)
		if m.Plural != "" {
			m.Str[1] = fmt.Sprintf("T%d.1", serial)
		}
	}
	if t.Chance(12) {
		m.NoComment = true
		return m
	}
	lines := func() []string {
		switch t.IntN(4) {
		case 0:
			return nil
		case 1:
			return []string{fw.Pick(t, []string{"one", "two", "three", "four five", "one two"})}
		}
		var l []string
		for _, i := range t.Perm(6)[:1+t.IntN(3)] {
			l = append(l, []string{"one", "two", "three", "one two", "ONE", model.Token(t.Rand, 2)}[i])
		}
		return l
	}
	m.Translator, m.Extracted = lines(), lines()
	for _, i := range t.Perm(len(mergeFlags))[:t.IntN(4)] {
		m.Flags = append(m.Flags, mergeFlags[i])
	}
	seen := map[po.Reference]bool{}
	for i := t.IntN(5); i > 0; i-- {
		r := po.Reference{Path: fw.Pick(t, mergePaths), Line: t.IntN(4) * 9, Column: t.IntN(2) * t.IntN(12)}
		if !seen[r] {
			seen[r] = true
			m.Refs = append(m.Refs, r)
		}
	}
	if t.Chance(5) {
		m.PrevID, m.PrevCtx = "previous", fw.Pick(t, []string{"", "ctx"})
	}
	return m
}

// message makes the real message; literal: without the Add methods; twice: lists of literal messages may have
// elements twice.
func (m mmsg) message(t *fw.T, literal, twice bool) *po.Message {
	out := po.NewMessage()
	if t.Chance(3) {
		out = &po.Message{}
	}
	out.Context, out.ID, out.IDPlural, out.Str = m.Ctx, m.ID, m.Plural, maps.Clone(m.Str)
	if m.NoComment {
		out.Comment = nil
		return out
	}
	if out.Comment == nil {
		out.Comment = po.NewComment()
	}
	c := out.Comment
	c.Translator, c.Extracted = strings.Join(m.Translator, "\n"), strings.Join(m.Extracted, "\n")
	c.PrevMsgContext, c.PrevMsgID = m.PrevCtx, m.PrevID
	twice = twice && literal && t.Chance(3)
	if twice {
		c.Translator, c.Extracted = c.Translator+"\n"+c.Translator, c.Extracted+"\n"+c.Extracted
		t.Count("messages with duplicates", 1)
	}
	for _, f := range m.Flags {
		if literal {
			c.Flags = append(c.Flags, f)
			if twice {
				c.Flags = append(c.Flags, f)
			}
			continue
		}
		c.AddFlag(f)
		if t.Chance(3) {
			c.AddFlag(f)
		}
	}
	for _, r := range m.Refs {
		if literal {
			c.References = append(c.References, &r)
			if twice {
				r2 := r
				c.References = append(c.References, &r2)
			}
			continue
		}
		if t.Chance(2) {
			out.AddReference(&r)
		} else {
			c.AddReference(&r)
		}
		if t.Chance(3) {
			r2 := r
			out.AddReference(&r2)
		}
	}
	return out
}

// merged is the expected content of one entry.
type merged struct {
	first                 mmsg
	plural                string
	translator, extracted map[string]bool
	flags                 map[string]bool
	refs                  map[po.Reference]bool
	count                 int
	literal               bool
}

func (e *merged) add(m mmsg, literal bool) {
	if e.count == 0 {
		e.first = m
		e.translator, e.extracted, e.flags, e.refs = map[string]bool{}, map[string]bool{}, map[string]bool{}, map[po.Reference]bool{}
		e.literal = literal
	} else if !m.NoComment {
		e.literal = false // a merge sorts
	}
	e.count++
	if e.plural == "" {
		e.plural = m.Plural
	}
	for _, l := range m.Translator {
		e.translator[l] = true
	}
	for _, l := range m.Extracted {
		e.extracted[l] = true
	}
	for _, f := range m.Flags {
		e.flags[f] = true
	}
	for _, r := range m.Refs {
		e.refs[r] = true
	}
}

// splitLines returns the lines of a comment, without empty ones.
func splitLines(s string) []string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if l != "" {
			out = append(out, l)
		}
	}
	return out
}

func setOf[K comparable](t *fw.T, what string, xs []K) map[K]bool {
	m := map[K]bool{}
	for _, x := range xs {
		if m[x] {
			t.Fail("duplicate", "%s: %v occurs twice in %v", what, x, xs)
		}
		m[x] = true
	}
	return m
}

func lessRef(a, b po.Reference) bool {
	if a.Path != b.Path {
		return a.Path < b.Path
	}
	if a.Line != b.Line {
		return a.Line < b.Line
	}
	return a.Column < b.Column
}

func (e *merged) check(t *fw.T, what string, m *po.Message) {
	t.Eval(1)
	if m.Context != e.first.Ctx || m.ID != e.first.ID {
		t.Fail("ids", "%s: entry is now ctx=%q id=%q", what, m.Context, m.ID)
	}
	if m.IDPlural != e.plural {
		t.Fail("plural-id", "%s: plural id %q, want %q", what, m.IDPlural, e.plural)
	}
	if !maps.Equal(m.Str, e.first.Str) {
		t.Fail("translations", "%s: translations %q, want those of the first message %q", what, m.Str, e.first.Str)
	}
	if m.Comment == nil {
		if len(e.translator)+len(e.extracted)+len(e.flags)+len(e.refs) > 0 {
			t.Fail("comment", "%s: no comment", what)
		}
		return
	}
	c := m.Comment
	if got := setOf(t, what+": translator comment", splitLines(c.Translator)); !maps.Equal(got, e.translator) {
		t.Fail("translator", "%s: translator comment %q, want the lines %v", what, c.Translator, fw.SortedKeys(e.translator))
	}
	if got := setOf(t, what+": extracted comment", splitLines(c.Extracted)); !maps.Equal(got, e.extracted) {
		t.Fail("extracted", "%s: extracted comment %q, want the lines %v", what, c.Extracted, fw.SortedKeys(e.extracted))
	}
	if got := setOf(t, what+": flags", c.Flags); !maps.Equal(got, e.flags) {
		t.Fail("flags", "%s: flags %q, want %v", what, c.Flags, fw.SortedKeys(e.flags))
	}
	for f := range e.flags {
		if !c.HasFlag(f) {
			t.Fail("has-flag", "%s: HasFlag(%q) is false", what, f)
		}
	}
	if c.HasFlag("none") || c.HasFlag("") {
		t.Fail("has-flag", "%s: has a flag that was not set", what)
	}
	var refs []po.Reference
	for _, r := range c.References {
		refs = append(refs, *r)
	}
	if got := setOf(t, what+": references", refs); !maps.Equal(got, e.refs) {
		t.Fail("references", "%s: references %v, want %v", what, refs, e.refs)
	}
	if e.literal {
		return
	}
	if !slices.IsSorted(c.Flags) {
		t.Fail("flags-order", "%s: flags %q are not sorted", what, c.Flags)
	}
	if !sort.SliceIsSorted(refs, func(i, j int) bool { return lessRef(refs[i], refs[j]) }) {
		t.Fail("reference-order", "%s: references %v are not sorted", what, refs)
	}
	if e.first.PrevID != c.PrevMsgID || e.first.PrevCtx != c.PrevMsgContext {
		t.Fail("previous", "%s: previous id %q and context %q, want %q and %q", what, c.PrevMsgID, c.PrevMsgContext, e.first.PrevID, e.first.PrevCtx)
	}
}

// dumpSet is the content of a file as far as it does not depend on the order of additions. Translations, plural
// ids and previous ids belong to the first one.
func dumpSet(f *po.File) string {
	var b strings.Builder
	for _, ctx := range fw.SortedKeys(f.Messages) {
		for _, id := range fw.SortedKeys(f.Messages[ctx]) {
			m := f.Messages[ctx][id]
			fmt.Fprintf(&b, "%q %q %v", ctx, id, m.IDPlural != "")
			if c := m.Comment; c != nil {
				tr, ex := splitLines(c.Translator), splitLines(c.Extracted)
				slices.Sort(tr)
				slices.Sort(ex)
				fmt.Fprintf(&b, " %q %q", tr, ex)
				flags := slices.Clone(c.Flags)
				slices.Sort(flags)
				refs := []string{}
				for _, r := range c.References {
					refs = append(refs, fmt.Sprintf("%+v", *r))
				}
				slices.Sort(refs)
				fmt.Fprintf(&b, " %q %q", flags, refs)
			} else {
				b.WriteString(" [] [] [] []")
			}
			b.WriteByte('\n')
		}
	}
	return b.String()
}

// dumpAll is the complete content.
func dumpAll(f *po.File) string {
	var b strings.Builder
	for _, ctx := range fw.SortedKeys(f.Messages) {
		for _, id := range fw.SortedKeys(f.Messages[ctx]) {
			m := f.Messages[ctx][id]
			fmt.Fprintf(&b, "%q %q: %q %q %q %q", ctx, id, m.Context, m.ID, m.IDPlural, m.Str)
			if c := m.Comment; c != nil {
				fmt.Fprintf(&b, " %q %q %q %q %q", c.Translator, c.Extracted, c.Flags, c.PrevMsgID, c.PrevMsgContext)
				for _, r := range c.References {
					fmt.Fprintf(&b, " %+v", *r)
				}
			} else {
				fmt.Fprintf(&b, " %q %q %q %q %q", "", "", []string{}, "", "")
			}
			b.WriteByte('\n')
		}
	}
	return b.String()
}

func c21merge(t *fw.T) {
	keys := [][3]string{}
	for _, ctx := range []string{"", "ctx", "a", "ctx "} {
		for _, id := range []string{"a", "b", "A", "ctx", "a "} {
			if t.Chance(3) {
				keys = append(keys, [3]string{ctx, id, fw.Pick(t, []string{"", "as", "as", "bs", id})})
			}
		}
	}
	if len(keys) == 0 {
		keys = append(keys, [3]string{"", "a", "as"})
	}
	literal := t.Chance(4)
	var ms []mmsg
	for i := 1 + t.IntN(12); i > 0; i-- {
		ms = append(ms, genMergeMsg(t, keys, i))
	}
	t.Note("literal %v\n%+v", literal, ms)
	build := func(ms []mmsg) (*po.File, map[[2]string]*merged) {
		f := po.NewFile()
		if t.Chance(3) {
			f = &po.File{}
		}
		want := map[[2]string]*merged{}
		ptr := map[[2]string]*po.Message{}
		for i, m := range ms {
			k := [2]string{m.Ctx, m.ID}
			real := m.message(t, literal, want[k] != nil)
			switch old := f.GetMessage(m.Ctx, m.ID); {
			case old != nil && t.Chance(4):
				old.Merge(real)
			case f.Messages != nil && t.Chance(4):
				f.Messages.Add(real)
			default:
				f.AddMessage(real)
			}
			if t.Chance(5) {
				f.AddMessage(&po.Message{Context: m.Ctx, Str: map[int]string{0: "ignored"}}) // no id
			}
			if want[k] == nil {
				want[k] = &merged{}
			}
			want[k].add(m, literal)
			got := f.GetMessage(m.Ctx, m.ID)
			if got == nil {
				t.Fail("lost", "after message %d: ctx=%q id=%q is not found", i, m.Ctx, m.ID)
			}
			if ptr[k] == nil {
				ptr[k] = got
			} else if ptr[k] != got {
				t.Fail("replaced", "after message %d: the entry ctx=%q id=%q was replaced", i, m.Ctx, m.ID)
			}
			want[k].check(t, fmt.Sprintf("after message %d, ctx=%q id=%q", i, m.Ctx, m.ID), got)
			if want[k].count > 1 {
				t.Count("merged messages", 1)
			}
		}
		n := 0
		for ctx, byID := range f.Messages {
			for id, m := range byID {
				n++
				e := want[[2]string{ctx, id}]
				if e == nil {
					t.Fail("extra", "entry ctx=%q id=%q was never added", ctx, id)
				}
				e.check(t, fmt.Sprintf("finally ctx=%q id=%q", ctx, id), m)
			}
		}
		if n != len(want) {
			t.Fail("entries", "%d entries, want %d", n, len(want))
		}
		for _, k := range [][2]string{{"none", "a"}, {"", "none"}, {"", ""}, {"ctx", ""}, {"A", "a"}, {"", "B"}, {" ", "a"}} {
			if want[k] == nil && f.GetMessage(k[0], k[1]) != nil {
				t.Fail("invented", "GetMessage(%q, %q) returns a message which was never added", k[0], k[1])
			}
		}
		return f, want
	}
	f, want := build(ms)
	before := dumpSet(f)

	// another order
	perm := slices.Clone(ms)
	t.Shuffle(len(perm), func(i, j int) { perm[i], perm[j] = perm[j], perm[i] })
	other, _ := build(perm)
	if s := dumpSet(other); s != before {
		t.Fail("order", "another order of the messages gives\n%s\nwant\n%s", s, before)
	}

	// everything again changes nothing
	for _, e := range want {
		if e.literal { // sorts the lists of messages which were added only once
			c := f.GetMessage(e.first.Ctx, e.first.ID).Comment
			if c != nil {
				slices.Sort(c.Flags)
				sort.Slice(c.References, func(i, j int) bool { return lessRef(*c.References[i], *c.References[j]) })
			}
		}
	}
	all := dumpAll(f)
	for _, m := range ms {
		f.AddMessage(m.message(t, literal, true))
	}
	for _, m := range ms {
		m := f.GetMessage(m.Ctx, m.ID)
		f.AddMessage(m)
		m.Merge(m)
		m.Merge(nil)
		m.Comment.Merge(nil)
	}
	if s := dumpAll(f); s != all {
		t.Fail("again", "adding everything again changes\n%s\nto\n%s", all, s)
	}

	// written and read
	data, err := po.Marshal(f)
	if err != nil {
		t.Fail("encode", "%v", err)
	}
	back, err := po.Parse(data)
	if err != nil {
		t.Fail("parse", "%v\n%s", err, data)
	}
	for k, e := range want {
		m := back.GetMessage(k[0], k[1])
		if m == nil {
			t.Fail("written", "ctx=%q id=%q is lost when the file is written\n%s", k[0], k[1], data)
		}
		c := m.Comment
		if c == nil {
			c = po.NewComment()
		}
		if got := setOf(t, "read flags", c.Flags); !maps.Equal(got, e.flags) {
			t.Fail("written-flags", "ctx=%q id=%q: flags read back %q, want %v", k[0], k[1], c.Flags, e.flags)
		}
	}
	t.Distinct("merge", all)
	t.Sample("%d messages merged to %d entries", len(ms), len(want))
}

// c21header: fields set under any capitalisation.
func c21header(t *fw.T) {
	known := []string{"Project-Id-Version", "Report-Msgid-Bugs-To", "POT-Creation-Date", "PO-Revision-Date", "Last-Translator", "Language-Team", "Language", "MIME-Version", "Content-Type", "Content-Transfer-Encoding", "Plural-Forms", "X-Generator"}
	names := append(slices.Clone(known), "X-Poedit-Basepath", "X-spreak-use-CLDR", "X", "x-y", "Language-", "Language Team", "X-Generator2", "Größe", "plural_forms", "", "Generator", "X-Language", "X-Plural-Forms", "Poedit-Basepath", "Project-Id")
	recase := func(s string) string {
		switch t.IntN(4) {
		case 0:
			return strings.ToUpper(s)
		case 1:
			return strings.ToLower(s)
		case 2:
			return s
		}
		return strings.Map(func(r rune) rune {
			if r < 128 && t.Chance(2) {
				return unicode.ToUpper(r)
			} else if r < 128 {
				return unicode.ToLower(r)
			}
			return r
		}, s)
	}
	h := &po.Header{}
	want := map[string]string{}
	var log []string
	for i := 1 + t.IntN(30); i > 0; i-- {
		k := recase(fw.Pick(t, names))
		if strings.ContainsRune(k, 'ß') || strings.Contains(k, "SS") {
			k = "Größe"
		}
		v := fmt.Sprintf("v%d", i)
		if t.Chance(10) {
			v = ""
		}
		h.Set(k, v)
		want[strings.ToLower(k)] = v
		log = append(log, fmt.Sprintf("%q=%q", k, v))
		t.Note("%v", log)
		for _, n := range names {
			n2 := recase(n)
			if strings.HasPrefix(n, "Gr") {
				n2 = n
			}
			if got := h.Get(n2); got != want[strings.ToLower(n2)] {
				t.Fail("header", "after %v: Get(%q) = %q, want %q", log, n2, got, want[strings.ToLower(n2)])
			}
			t.Eval(1)
		}
	}
	folded := map[string]bool{}
	for k := range h.UnknownFields {
		if folded[strings.ToLower(k)] {
			t.Fail("header-duplicate", "after %v: unknown fields %q", log, h.UnknownFields)
		}
		folded[strings.ToLower(k)] = true
		for _, n := range known {
			if strings.EqualFold(n, k) {
				t.Fail("header-known", "after %v: %q is stored as unknown field", log, k)
			}
		}
	}
	fields := map[string]string{"project-id-version": h.ProjectIDVersion, "report-msgid-bugs-to": h.ReportMsgidBugsTo, "pot-creation-date": h.POTCreationDate, "po-revision-date": h.PORevisionDate, "last-translator": h.LastTranslator, "language-team": h.LanguageTeam, "language": h.Language, "mime-version": h.MimeVersion, "content-type": h.ContentType, "content-transfer-encoding": h.ContentTransferEncoding, "plural-forms": h.PluralForms, "x-generator": h.XGenerator}
	for k, v := range fields {
		if v != want[k] {
			t.Fail("header-field", "after %v: field %s is %q, want %q", log, k, v, want[k])
		}
	}
	t.Count("header histories", 1)
	t.Distinct("header", strings.Join(log, ","))
	t.Sample("%v", log)
}

func init() {
	register(&fw.Check{
		ID:   "C21",
		Rule: "histories of additions (AddMessage, Messages.Add, Message.Merge) of generated messages with overlapping keys, flags, references and comment lines; after each step the entry is compared with the union computed by the model, another order must give the same set, adding everything again must change nothing, and the written file reads back to the same flags. Header histories of Set and Get with random capitalisation. Non-trivial: all",
		Gens: []fw.Gen{
			{Name: "merge", Quick: 12000, Thor: 500000, Run: c21merge},
			{Name: "header", Quick: 4000, Thor: 100000, Run: c21header},
		},
		MinNonTriv: 5000,
		Need:       []string{"merged messages", "messages with duplicates", "header histories"},
		Assumptions: []string{
			"messages which are added for one key agree in their plural id if they have one; lists of the first message of a key contain no duplicates; lists which were filled without AddFlag or AddReference are only sorted by a merge",
			"capitalisation of ASCII letters",
		},
	})
}
