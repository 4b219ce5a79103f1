package model

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"unicode/utf8"
)

// Layout describes how a model is written down in PO syntax. The zero value
// is the layout the gettext tools produce.
type Layout struct {
	CRLF        bool
	Split       bool // split strings over continuation lines at random places
	RawTabs     bool // tabs (and other raw-safe characters) unescaped
	OctHex      bool // control characters as \xHH (two digits) or short octal escapes
	OctBytes    bool // non-ASCII characters as octal bytes (msgcat --escape)
	BlankIn     bool // blank lines within entries
	Indent      bool // random indentation / trailing blanks
	WideBlank   bool // several blank lines, blank lines made of spaces
	NoBlank     bool // sometimes no blank line between entries
	TightKw     bool // msgstr"x", msgstr [0] "x" spacing variants
	NoFinalNL   bool
	ShuffleStr  bool // plural forms in arbitrary order
	CommentMix  bool // comment kinds in arbitrary order
	TailComment bool // trailing comments / obsolete block at the end
	EmptyNotes  bool // bare '#', '#.', '#,' lines
}

func RandLayout(r *rand.Rand) Layout {
	b := func() bool { return r.IntN(3) == 0 }
	return Layout{CRLF: r.IntN(5) == 0, Split: r.IntN(2) == 0, RawTabs: b(), OctHex: b(), OctBytes: b(), BlankIn: b(), Indent: b(), WideBlank: b(), NoBlank: b(), TightKw: b(), NoFinalNL: b(), ShuffleStr: b(), CommentMix: b(), TailComment: b(), EmptyNotes: b()}
}

func escape(r *rand.Rand, s string, l Layout) []string {
	// one element per source character, so that splitting never cuts an escape
	var out []string
	for i := 0; i < len(s); {
		c, n := utf8.DecodeRuneInString(s[i:])
		e := s[i : i+n]
		i += n
		switch c {
		case '"':
			e = `\"`
		case '\\':
			e = `\\`
		case '\n':
			e = `\n`
		case '\r':
			e = `\r`
		case '\t':
			if !l.RawTabs || r.IntN(2) == 0 {
				e = `\t`
			}
		case '\a':
			e = `\a`
		case '\b':
			e = `\b`
		case '\f':
			e = `\f`
		case '\v':
			e = `\v`
		default:
			if c < ' ' {
				switch {
				case l.OctHex && r.IntN(2) == 0:
					e = fmt.Sprintf(`\x%02x`, c)
				case l.OctHex && (i >= len(s) || s[i] < '0' || s[i] > '9') && r.IntN(2) == 0:
					e = fmt.Sprintf(`\%o`, c)
				default:
					e = fmt.Sprintf(`\%03o`, c)
				}
			} else if l.OctBytes && c >= 0x80 && r.IntN(3) == 0 {
				raw := e
				e = ""
				for k := 0; k < len(raw); k++ {
					e += fmt.Sprintf(`\%03o`, raw[k])
				}
			}
		}
		out = append(out, e)
	}
	return out
}

// quoted returns the string literal lines (each with quotes).
func quoted(r *rand.Rand, s string, l Layout) []string {
	chars := escape(r, s, l)
	if !l.Split || len(chars) == 0 || r.IntN(4) == 0 {
		// tool layout: multi line texts start with "" and break after \n
		hasNL := false
		for i, c := range chars {
			if c == `\n` && i+1 < len(chars) {
				hasNL = true
			}
		}
		if !hasNL {
			return []string{`"` + strings.Join(chars, "") + `"`}
		}
		out := []string{`""`}
		cur := ""
		for i, c := range chars {
			cur += c
			if c == `\n` || i+1 == len(chars) {
				out = append(out, `"`+cur+`"`)
				cur = ""
			}
		}
		return out
	}
	var out []string
	if r.IntN(2) == 0 {
		out = append(out, `""`)
	}
	p := 1 + r.IntN(10)
	cur := ""
	for i, c := range chars {
		cur += c
		if i+1 == len(chars) || r.IntN(p) == 0 {
			out = append(out, `"`+cur+`"`)
			cur = ""
			if r.IntN(12) == 0 {
				out = append(out, `""`)
			}
		}
	}
	return out
}

type writer struct {
	inNote bool // the last line was a comment of the current entry
	b      strings.Builder
	r      *rand.Rand
	l      Layout
	eol    string
	last   string
}

func (w *writer) line(s string) {
	if w.l.Indent && s != "" {
		switch w.r.IntN(6) {
		case 5:
			s = white(w.r) + s
		case 0:
			s = "  " + s
		case 1:
			s = "\t" + s
		case 2:
			s += "  "
		}
	}
	w.b.WriteString(s + w.eol)
	w.last = s
}

// white returns the content of a line which only consists of white space.
func white(r *rand.Rand) string {
	s := ""
	for i := r.IntN(4); i >= 0; i-- {
		s += []string{" ", " ", "\t", "\f", "\v"}[r.IntN(5)]
	}
	return s
}

// blankIn is called between the parts of an entry.
func (w *writer) blankIn() {
	if w.l.BlankIn && w.r.IntN(6) == 0 {
		if w.l.WideBlank && w.r.IntN(2) == 0 {
			w.b.WriteString(white(w.r))
		}
		w.b.WriteString(w.eol)
	}
}

func (w *writer) keyword(kw, s string) {
	if !w.inNote { // a blank line after a comment would detach the comment
		w.blankIn()
	}
	w.inNote = false
	q := quoted(w.r, s, w.l)
	sep := " "
	if w.l.TightKw && strings.HasPrefix(kw, "msgstr") {
		sep = []string{" ", "", "  ", "\t"}[w.r.IntN(4)]
	} else if w.l.TightKw && w.r.IntN(3) == 0 {
		sep = []string{"  ", "\t", " \t"}[w.r.IntN(3)]
	}
	w.line(kw + sep + q[0])
	for _, x := range q[1:] {
		w.blankIn()
		w.line(x)
	}
}

func (w *writer) entry(e *Entry) {
	pre := ""
	if e.Obsolete {
		pre = "#~ "
	}
	// comments
	var groups [][]string
	var g []string
	for _, t := range e.Translator {
		if t == "" {
			g = append(g, "#")
		} else if w.r.IntN(6) == 0 && w.l.CommentMix && !strings.ContainsAny(t[:1], ".,:|~=") {
			g = append(g, "#"+t)
		} else {
			g = append(g, "# "+t)
		}
	}
	groups = append(groups, g)
	g = nil
	for _, t := range e.Extracted {
		if t == "" && w.r.IntN(2) == 0 || w.l.CommentMix && w.r.IntN(5) == 0 {
			g = append(g, "#."+t)
		} else {
			g = append(g, "#. "+t)
		}
	}
	groups = append(groups, g)
	g = nil
	if len(e.Refs) > 0 {
		cur := "#:"
		for _, rf := range e.Refs {
			if cur != "#:" && w.r.IntN(3) == 0 {
				g = append(g, cur)
				cur = "#:"
			}
			if rf.Line > 0 {
				cur += fmt.Sprintf(" %s:%d", rf.Path, rf.Line)
			} else {
				cur += " " + rf.Path
			}
		}
		g = append(g, cur)
	}
	groups = append(groups, g)
	g = nil
	if len(e.Flags) > 0 {
		cur := ""
		for _, f := range e.Flags {
			if cur != "" && w.l.CommentMix && w.r.IntN(3) == 0 {
				g = append(g, cur)
				cur = ""
			}
			switch {
			case cur == "" && w.l.CommentMix && w.r.IntN(4) == 0:
				cur = []string{"#,", "#,\t", "#,  "}[w.r.IntN(3)] + f
			case cur == "":
				cur = "#, " + f
			case w.l.CommentMix && w.r.IntN(4) == 0:
				cur += []string{",", ",\t", ",  ", " , ", "\t,"}[w.r.IntN(5)] + f
			default:
				cur += ", " + f
			}
		}
		g = append(g, cur)
	}
	groups = append(groups, g)
	g = nil
	prev := func(kw, s string) {
		if s == "" {
			return
		}
		q := quoted(w.r, s, w.l)
		g = append(g, "#| "+kw+" "+q[0])
		for _, x := range q[1:] {
			g = append(g, "#| "+x)
		}
	}
	prev("msgctxt", e.PrevCtx)
	prev("msgid", e.PrevID)
	groups = append(groups, g)
	if w.l.EmptyNotes && w.r.IntN(3) == 0 {
		groups = append(groups, []string{[]string{"#,", "#:"}[w.r.IntN(2)]})
	}
	if w.l.CommentMix {
		w.r.Shuffle(len(groups), func(i, j int) { groups[i], groups[j] = groups[j], groups[i] })
	}
	if w.l.CommentMix && w.r.IntN(6) == 0 {
		w.line("# a detached comment")
		w.line([]string{"#: detached.go:1", "#. detached", "#, c-format"}[w.r.IntN(3)])
		w.b.WriteString(w.eol)
	}
	for _, gr := range groups {
		for _, x := range gr {
			w.line(x)
			w.inNote = true
		}
	}
	if e.Obsolete {
		// obsolete entries are comments; indentation must not hide the '#~'
		save := w.l
		w.l.TightKw = false
		emit := func(kw, s string) {
			q := quoted(w.r, s, w.l)
			w.line(pre + kw + " " + q[0])
			for _, x := range q[1:] {
				w.line(pre + x)
			}
		}
		if e.Ctx != "" {
			emit("msgctxt", e.Ctx)
		}
		emit("msgid", e.ID)
		if e.HasPlural {
			emit("msgid_plural", e.Plural)
		}
		for _, k := range w.order(e) {
			if e.HasPlural {
				emit(fmt.Sprintf("msgstr[%d]", k), e.Str[k])
			} else {
				emit("msgstr", e.Str[k])
			}
		}
		w.l = save
		w.inNote = false
		return
	}
	if e.Ctx != "" {
		w.keyword("msgctxt", e.Ctx)
	}
	w.keyword("msgid", e.ID)
	if e.HasPlural {
		w.keyword("msgid_plural", e.Plural)
		for _, k := range w.order(e) {
			index := fmt.Sprint(k)
			if w.l.TightKw && w.r.IntN(5) == 0 { // leading zeros do not change the index
				index = strings.Repeat("0", 1+w.r.IntN(2)) + index
			}
			w.keyword("msgstr["+index+"]", e.Str[k])
		}
	} else {
		w.keyword("msgstr", e.Str[0])
	}
}

func (w *writer) order(e *Entry) []int {
	var ks []int
	for i := 0; i < 64; i++ {
		if _, ok := e.Str[i]; ok {
			ks = append(ks, i)
		}
	}
	if w.l.ShuffleStr {
		w.r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	}
	return ks
}

func (w *writer) gap(prevObsolete, nextObsolete bool) {
	if w.l.NoBlank && w.r.IntN(2) == 0 {
		return
	}
	n := 1
	if w.l.WideBlank {
		n += w.r.IntN(3)
	}
	for i := 0; i < n; i++ {
		if w.l.WideBlank && w.r.IntN(3) == 0 {
			w.b.WriteString(white(w.r) + w.eol)
		} else {
			w.b.WriteString(w.eol)
		}
	}
}

// PO writes the catalog.
func (c *Catalog) PO(r *rand.Rand, l Layout) string {
	w := &writer{r: r, l: l, eol: "\n"}
	if l.CRLF {
		w.eol = "\r\n"
	}
	if l.WideBlank && r.IntN(3) == 0 {
		w.b.WriteString(w.eol)
	}
	first := true
	prevObs := false
	if c.HasHeader {
		for _, t := range c.HeaderNote {
			w.line(strings.TrimSpace("# " + t))
			w.inNote = true
		}
		if len(c.HeaderFlag) > 0 {
			w.line("#, " + strings.Join(c.HeaderFlag, ", "))
			w.inNote = true
		}
		w.keyword("msgid", "")
		w.keyword("msgstr", c.HeaderText())
		first = false
	}
	for _, e := range c.Entries {
		if !first {
			w.gap(prevObs, e.Obsolete)
		}
		first, prevObs = false, e.Obsolete
		w.entry(e)
	}
	if l.TailComment {
		w.gap(true, true)
		switch r.IntN(3) {
		case 0:
			w.line("# the end")
		case 1:
			w.line("#, fuzzy")
			w.line(`#~ msgid "gone"`)
			w.line(`#~ msgstr "weg"`)
		case 2:
			w.line(`#~ msgid "gone"`)
			w.line(`#~ msgstr "weg"`)
			w.line("")
			w.line("# x")
		}
	}
	s := w.b.String()
	if l.NoFinalNL {
		s = strings.TrimRight(s, "\r\n")
	}
	return s
}

// Quoted returns the literal lines of a text.
func Quoted(r *rand.Rand, s string, l Layout) []string { return quoted(r, s, l) }
