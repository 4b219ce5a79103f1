// Package model holds the abstract catalogs from which test files are written.
// A file is generated from a model, so the model is the oracle for reading it.
package model

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
)

type Ref struct {
	Path string
	Line int // -1: none
}

type Entry struct {
	Ctx, ID, Plural string
	HasPlural       bool
	Str             map[int]string
	Flags           []string
	Translator      []string // lines, trimmed, first and last non-empty
	Extracted       []string // lines, trimmed; empty ones only between others
	Refs            []Ref
	PrevCtx, PrevID string
	Obsolete        bool
}

func (e *Entry) Fuzzy() bool {
	for _, f := range e.Flags {
		if f == "fuzzy" {
			return true
		}
	}
	return false
}

func (e *Entry) String() string {
	ks := []int{}
	for k := range e.Str {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	s := fmt.Sprintf("{ctx=%q id=%q", e.Ctx, e.ID)
	if e.HasPlural {
		s += fmt.Sprintf(" plural=%q", e.Plural)
	}
	for _, k := range ks {
		s += fmt.Sprintf(" [%d]=%q", k, e.Str[k])
	}
	if len(e.Flags) > 0 {
		s += fmt.Sprintf(" flags=%q", e.Flags)
	}
	if e.Obsolete {
		s += " obsolete"
	}
	return s + "}"
}

type KV struct{ K, V string }

type Catalog struct {
	HasHeader  bool
	Header     []KV
	HeaderNote []string // translator comment of the header entry
	HeaderFlag []string
	HeaderOpen bool // the last header field is not ended by a line break
	Entries    []*Entry
}

func (c *Catalog) HeaderText() string {
	var b strings.Builder
	for _, kv := range c.Header {
		b.WriteString(kv.K + ": " + kv.V + "\n")
	}
	if c.HeaderOpen {
		return strings.TrimSuffix(b.String(), "\n")
	}
	return b.String()
}

func (c *Catalog) Get(k string) string {
	for _, kv := range c.Header {
		if strings.EqualFold(kv.K, k) {
			return kv.V
		}
	}
	return ""
}

// ---- string generators

var words = []string{"Hello", "world", "file", "files", "%d", "%s", "open", "Ä", "ñandú", "日本語", "привет", "שלום", "e\u0301", "🙂", "a", "I", "100%", "don't", "foo_bar", "<b>", "</b>", "{{.x}}", "http://x.y/z?a=b&c=d", "-", "…", "\u00a0", "ß", "Ωμέγα", "ไทย"}

var nasty = []string{`"`, `\`, "\n", "\t", "\r", `\n`, `\"`, `""`, "\\\\", "#", "# x", "#, fuzzy", "#~ msgid", "msgid", `msgid "x"`, "msgstr[0]", "\a", "\b", "\f", "\v", "%", "%%", "\u2028", "\u0085", "\ufeff", " ", "  ", "'", "/", "[1]", ":", ";", "\n\n", "\r\n", " \n", "\n ", "\u200b", "\u202e", "\U0010ffff", "\ufffd", "$", "`", "\u007f"}

var controls = []string{"\x01", "\x02", "\x1b", "\x1f", "\x0e", "\x10", "\x19"}

// Text returns a random text. level 0: plain words, 1: adds quoting hazards, 2: adds control characters.
func Text(r *rand.Rand, level, maxParts int) string {
	n := 1 + r.IntN(maxParts)
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch {
		case level >= 2 && r.IntN(8) == 0:
			b.WriteString(controls[r.IntN(len(controls))])
		case level >= 1 && r.IntN(3) == 0:
			b.WriteString(nasty[r.IntN(len(nasty))])
		default:
			b.WriteString(words[r.IntN(len(words))])
		}
		if r.IntN(2) == 0 && i+1 < n {
			b.WriteByte(' ')
		}
	}
	return b.String()
}

// Token returns an unique-ish short printable id.
func Token(r *rand.Rand, n int) string {
	const a = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	b := make([]byte, n)
	for i := range b {
		b[i] = a[r.IntN(len(a))]
	}
	return string(b)
}

var flagPool = []string{"fuzzy", "c-format", "no-c-format", "go-format", "xspreak-template", "range:0..10", "no-wrap", "python-brace-format", "max-length=20", "a;b", "C-Format", "Fuzzy", "no-fuzzy", "x.y/z", "flag:a:b", "(q)", "ü", "#1"}
var pathPool = []string{"main.go", "src/a.c", "cmd/tool/tool.go", "../x/y_z.tmpl", "templates/home.html", "a-b.go", "ü.go"}

type Opts struct {
	Level       int // text level
	Entries     int
	Forms       int // maximal number of plural forms
	Comments    bool
	NoFuzzy     bool
	Obsolete    bool
	Empty       bool // allow empty translations
	SparseForms bool // allow gaps in the plural indices
	LongText    bool
}

// commentLine is a trimmed single comment line that cannot be mistaken for another comment kind.
func commentLine(r *rand.Rand) string {
	pool := append(append([]string{}, words...), `"quoted"`, `\back`, "#", "msgid", "a: b", ", x", ". y", ": z", "| w", "~")
	n := 1 + r.IntN(4)
	p := make([]string, n)
	for i := range p {
		p[i] = pool[r.IntN(len(pool))]
	}
	s := strings.TrimSpace(strings.Join(p, " "))
	if s == "" || s[0] == '~' {
		s = "c" + s
	}
	return s
}

func CommentLines(r *rand.Rand, interiorEmpty bool) []string {
	n := 1 + r.IntN(3)
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, commentLine(r))
		if interiorEmpty && i+1 < n && r.IntN(4) == 0 {
			l = append(l, "")
		}
	}
	return l
}

// Gen draws a catalog. Translations are unique per catalog (a token is
// embedded in each) so that a wrong attribution is always visible.
func Gen(r *rand.Rand, o Opts) *Catalog {
	c := &Catalog{}
	seen := map[string]bool{}
	ctxs := []string{"", "", "", Text(r, o.Level, 2), "ctx", "errors"}
	serial := 0
	uniq := func(s string) string {
		serial++
		switch r.IntN(3) {
		case 0:
			return fmt.Sprintf("T%d·%s", serial, s)
		case 1:
			return fmt.Sprintf("%s·T%d", s, serial)
		}
		h := len(s) / 2
		for h > 0 && h < len(s) && s[h]&0xC0 == 0x80 {
			h--
		}
		return fmt.Sprintf("%sT%d·%s", s[:h], serial, s[h:])
	}
	for len(c.Entries) < o.Entries {
		e := &Entry{Str: map[int]string{}}
		e.Ctx = ctxs[r.IntN(len(ctxs))]
		maxParts := 5
		if o.LongText && r.IntN(6) == 0 {
			maxParts = 60
		}
		e.ID = Text(r, o.Level, maxParts)
		if r.IntN(4) == 0 && len(c.Entries) > 0 {
			e.ID = c.Entries[r.IntN(len(c.Entries))].ID // same id in other context
		}
		key := e.Ctx + "\x04" + e.ID
		if e.ID == "" || seen[key] {
			e.ID += Token(r, 5)
			key = e.Ctx + "\x04" + e.ID
			if seen[key] {
				continue
			}
		}
		seen[key] = true
		if o.Forms > 0 && r.IntN(3) == 0 {
			e.HasPlural = true
			e.Plural = Text(r, o.Level, maxParts)
			n := 1 + r.IntN(o.Forms)
			for i := 0; i < n; i++ {
				if o.SparseForms && r.IntN(4) == 0 {
					continue
				}
				e.Str[i] = uniq(Text(r, o.Level, maxParts))
				if o.Empty && r.IntN(6) == 0 {
					e.Str[i] = ""
				}
			}
			if len(e.Str) == 0 {
				e.Str[0] = uniq("x")
			}
		} else {
			e.Str[0] = uniq(Text(r, o.Level, maxParts))
			if o.Empty && r.IntN(6) == 0 {
				e.Str[0] = ""
			}
		}
		if o.Comments || !o.NoFuzzy {
			for r.IntN(3) == 0 {
				f := flagPool[r.IntN(len(flagPool))]
				if f == "fuzzy" && o.NoFuzzy {
					continue
				}
				dup := false
				for _, x := range e.Flags {
					dup = dup || x == f
				}
				if !dup {
					e.Flags = append(e.Flags, f)
				}
			}
		}
		if o.Comments {
			if r.IntN(3) == 0 {
				e.Translator = CommentLines(r, true)
			}
			if r.IntN(3) == 0 {
				e.Extracted = CommentLines(r, r.IntN(2) == 0)
			}
			for r.IntN(2) == 0 {
				rf := Ref{Path: pathPool[r.IntN(len(pathPool))], Line: 1 + r.IntN(5000)}
				if r.IntN(4) == 0 {
					rf.Line = -1
				}
				e.Refs = append(e.Refs, rf)
			}
			if r.IntN(5) == 0 {
				e.PrevID = Text(r, o.Level, 4)
				if r.IntN(2) == 0 {
					e.PrevCtx = Text(r, o.Level, 3)
				}
			}
		}
		if o.Obsolete && r.IntN(5) == 0 {
			e.Obsolete = true
		}
		c.Entries = append(c.Entries, e)
	}
	return c
}
