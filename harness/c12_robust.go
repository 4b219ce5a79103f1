package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand/v2"
	"regexp"
	"runtime"
	"slices"
	"strings"
	"syscall"
	"time"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/catalog/poplural"

	"verifharness/fw"
	"verifharness/model"
	"verifharness/oracle"
)

// The bounds on memory and time. Measured need of the current code: at most ~150 bytes allocated per input
// byte (tiny entries with their maps) and below 1 µs per byte.
const (
	allocPerByte = 600
	allocBase    = 2 << 20
	cpuPerByte   = 12 * time.Microsecond
	cpuBase      = 1500 * time.Millisecond
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// bounded runs f on an input of the given size and checks allocation and CPU time against the size.
func bounded(t *fw.T, what string, size int, f func()) {
	t.Eval(1)
	runtime.GC()
	start := cpuTime()
	bytes := fw.Allocated(f)
	used := cpuTime() - start
	if limit := uint64(allocBase + allocPerByte*size); bytes > limit {
		t.Fail("memory", "%s allocated %d bytes for an input of %d bytes", what, bytes, size)
	}
	if limit := cpuBase + time.Duration(size)*cpuPerByte; used > limit {
		t.Fail("time", "%s used %v for an input of %d bytes", what, used, size)
	}
}

// lean is bounded without the costs of a garbage collection, for many small inputs.
func lean(t *fw.T, what string, size int, f func()) {
	t.Eval(1)
	if bytes := fw.Allocated(f); bytes > uint64(allocBase+allocPerByte*size) {
		t.Fail("memory", "%s allocated %d bytes for an input of %d bytes", what, bytes, size)
	}
}

var hostileNumbers = []any{0, 1, 2, 3, 5, 11, 21, 100, 1000000, -1, -2, math.MinInt64, math.MaxInt64, uint64(math.MaxUint64), int8(-128), 0.5, -1.5, 1e300, math.NaN(), math.Inf(1), math.Inf(-1), math.SmallestNonzeroFloat64,
	"1", "1.0", "-3", "", "x", "1c6", "1c-1", "1c999999999", "1e400", "0x10", "1_0", strings.Repeat("9", 400), "0." + strings.Repeat("9", 400), nil, (*int)(nil), []int{1}, struct{}{}, true, func() {}, map[int]int{}, complex(1, 2)}

// useCatalog looks up everything in a catalog.
func useCatalog(t *fw.T, cat catalog.Catalog, limit int) {
	_ = cat.Language()
	try := func(ctx, id string) {
		_, err := cat.Lookup(ctx, id)
		if err != nil {
			_ = err.Error()
		}
		for _, n := range hostileNumbers {
			if _, err := cat.LookupPlural(ctx, id, n); err != nil {
				_ = err.Error()
			}
		}
		t.Count("lookups", 1+len(hostileNumbers))
	}
	try("", "")
	try("ctx", "")
	try("", "\x00")
	switch x := cat.(type) {
	case *catalog.GettextCatalog:
		for ctx, m := range x.Messages() {
			for id := range m {
				if limit--; limit < 0 {
					return
				}
				try(ctx, id)
			}
		}
	case catalog.JSONCatalog:
		for key, m := range x.Messages() {
			if limit--; limit < 0 {
				return
			}
			try(m.Context, strings.TrimSuffix(key, "_"+m.Context))
		}
		var buf bytes.Buffer
		if err := catalog.NewJSONEncoder(&buf).Encode(x); err != nil {
			t.Err("encode", "decoded catalog cannot be encoded: %v", err)
		}
	}
}

// useFile encodes a parsed file and reads it again.
func useFile(t *fw.T, f *po.File) {
	_ = f.String()
	if f.Header == nil {
		t.Err("header", "a parsed file has no header")
	} else {
		_ = f.Header.Get("Plural-Forms") + f.Header.Get("x-unknown")
	}
	for _, w := range []int{-1, 0, 1, 40} {
		var buf bytes.Buffer
		e := po.NewEncoder(&buf)
		e.SetWrapWidth(w)
		if err := e.Encode(f); err != nil {
			t.Err("encode", "parsed file cannot be encoded: %v", err)
		}
		if w == 40 {
			_, _ = po.Parse(buf.Bytes())
		}
	}
}

var dictionary = map[string][]string{
	"po":     {"msgid ", "msgstr ", "msgctxt ", "msgid_plural ", "msgstr[", "msgstr[0] ", "msgstr[1] ", "msgstr[99999999999999999999] ", "msgstr[2147483647] ", "msgstr[]", "msgstr[-1] ", "\"", "\"\"", "\\", "\\\"", "\\x", "\\xf", "\\777", "\\8", "\\u", "\n", "\r\n", "\r", "\n\n", "#", "#,", "#, fuzzy\n", "#~", "#~ msgid \"x\"\n", "#|", "#| msgid \"", "#| msgctxt", "#| \"a\"", "#| msgid_plural \"", "#:", "#: :", "#: a:b:c", "#: a:99999999999999999999", "#.", "# ", "Plural-Forms: nplurals=", "Plural-Forms: nplurals=2; plural=n%0;\\n", "X-spreak-use-CLDR: true\\n", ":", "\x00", "\xff", "\xc3", "\ufeff", "msgid \"\"\nmsgstr \"\"\n", "\t", "  ", "]", "[", "domain \"x\"\n"},
	"json":   {"{", "}", "[", "]", "\"", ":", ",", "null", "true", "1e999", "\"context\"", "\"other\"", "\"one\"", "\"Other\"", "\\u0000", "\\ud800", "\x00", "\xff", "{\"a\":", "[[[[", "-", "\"_ctx\"", "\"\""},
	"plural": {"n", "%", "?", ":", "(", ")", "||", "&&", "==", "!=", "<", ">", "<=", ">=", "!", "nplurals=", "plural=", ";", "0", "1", "99999999999999999999", "-1", "n%0", "n%n", " ", "\t", "\n", "\x00", "é", "=", "&", "|", "+", "-", "*", "/"},
	"cldr":   {"n", "i", "f", "t", "v", "w", "c", "e", "and", "or", "is", "not", "in", "within", "mod", "%", "=", "!=", ",", "..", "~", "…", "...", "@integer", "@decimal", "0", "1", "9223372036854775807", "99999999999999999999", "1..99999999999", "5..1", "% 0", "1c6", "1e6", "1.5", "-1", "+", " ", "\x00", "é"},
}

// mutate changes data at a few places.
func mutate(t *fw.T, data []byte, dict []string, max int) []byte {
	data = slices.Clone(data)
	for k := 1 + t.IntN(max); k > 0; k-- {
		pos := t.IntN(len(data) + 1)
		end := min(len(data), pos+t.IntN(40))
		switch t.IntN(9) {
		case 0:
			if pos < len(data) {
				data[pos] ^= 1 << t.IntN(8)
			}
		case 1:
			data = slices.Delete(data, pos, end)
		case 2:
			data = slices.Insert(data, pos, slices.Clone(data[pos:end])...)
		case 3, 4, 5:
			if len(dict) > 0 {
				data = slices.Insert(data, pos, []byte(fw.Pick(t, dict))...)
			}
		case 6:
			data = data[:pos]
		case 7:
			if pos < len(data) {
				data[pos] = byte(t.IntN(256))
			}
		case 8:
			// Copy a part to another place
			part := slices.Clone(data[pos:end])
			data = slices.Insert(data, t.IntN(len(data)+1), part...)
		}
		if len(data) > 1<<16 {
			data = data[:1<<16]
		}
	}
	return data
}

func soup(r *rand.Rand, dict []string, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(dict[r.IntN(len(dict))])
		if r.IntN(3) == 0 {
			b.WriteByte("\n a"[r.IntN(3)])
		}
	}
	return b.String()
}

// tryPO parses and decodes PO data.
func tryPO(t *fw.T, data []byte) {
	t.Note("PO data:\n%q", data)
	ok := 0
	for _, ignore := range []bool{false, true} {
		var f *po.File
		var err error
		lean(t, "parsing", len(data), func() {
			p := po.NewParser()
			p.SetIgnoreComments(ignore)
			f, err = p.Parse(bytes.NewReader(data))
		})
		if (f == nil) == (err == nil) {
			t.Fail("result", "parser returned %v and %v", f, err)
		}
		if err != nil {
			_ = err.Error()
			continue
		}
		ok++
		useFile(t, f)
	}
	tag := language.MustParse(fw.Pick(t, []string{"de", "ar", "la", "und", "zh-Hant-TW"}))
	for _, d := range []catalog.Decoder{catalog.NewPoDecoder(), catalog.NewPoCLDRDecoder()} {
		tryDecoder(t, d, tag, data)
	}
	t.Count("po accepted", ok)
	if ok > 0 {
		t.Distinct("po", string(data))
		t.Sample("accepted: %q", data)
	}
}

func tryDecoder(t *fw.T, d catalog.Decoder, tag language.Tag, data []byte) bool {
	var cat catalog.Catalog
	var err error
	lean(t, fmt.Sprintf("%T", d), len(data), func() { cat, err = d.Decode(tag, "dom", data) })
	if (cat == nil) == (err == nil) {
		t.Fail("result", "%T returned %v and %v", d, cat, err)
	}
	if err != nil {
		_ = err.Error()
		t.Count("rejected", 1)
		return false
	}
	t.Count("decoded", 1)
	useCatalog(t, cat, 30)
	return true
}

func c12po(t *fw.T) {
	c := model.Gen(t.Rand, model.Opts{Level: 2, Entries: 1 + t.IntN(5), Forms: 4, Comments: true, Obsolete: true, Empty: true, SparseForms: true})
	if t.Chance(2) {
		genHeader(t, c, 1)
	}
	tryPO(t, mutate(t, []byte(c.PO(t.Rand, model.RandLayout(t.Rand))), dictionary["po"], 6))
}

var digitRun = regexp.MustCompile(`[0-9]+`)

// c12numbers: valid files and rules in which single numbers are replaced by huge ones.
func c12numbers(t *fw.T) {
	enlarge := func(text string) string {
		runs := digitRun.FindAllStringIndex(text, -1)
		if len(runs) == 0 {
			return text
		}
		r := fw.Pick(t, runs)
		huge := fw.Pick(t, []string{"20000000", "400000000", "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551616", "000000000400000000", strings.Repeat("9", 300)})
		return text[:r[0]] + huge + text[r[1]:]
	}
	form := fw.Pick(t, allPluralForms())
	if t.Chance(2) { // the number of forms
		_, rest, _ := strings.Cut(form, ";")
		form = "nplurals=" + fw.Pick(t, []string{"20000000", "400000000", "2147483647", "9223372036854775807"}) + ";" + rest
	} else {
		form = enlarge(form)
	}
	if t.Chance(3) {
		t.Note("rule %q", form)
		lean(t, "parsing", len(form), func() {
			if rule, err := poplural.Parse(form); err == nil {
				t.Count("numbers accepted", 1)
				for _, n := range hostileNumbers[:12] {
					_, _ = rule.Evaluate(n)
				}
			}
		})
		return
	}
	c := model.Gen(t.Rand, model.Opts{Level: t.IntN(2), Entries: 1 + t.IntN(5), Forms: 1 + t.IntN(4), Comments: true, Obsolete: t.Chance(3)})
	genHeader(t, c, 0)
	c.Header = append(c.Header[:0:0], model.KV{K: "Language", V: "de"}, model.KV{K: "Plural-Forms", V: form})
	tag := language.MustParse(fw.Pick(t, []string{"de", "ar", "und"}))
	if t.Chance(3) {
		data := model.MO(t.Rand, c.Pairs(), model.RandMOLayout(t.Rand))
		t.Note("MO data:\n%q", data)
		tryDecoder(t, fw.Pick(t, []catalog.Decoder{catalog.NewMoDecoder(), catalog.NewMoCLDRDecoder()}), tag, data)
		return
	}
	text := c.PO(t.Rand, model.Layout{})
	if t.Chance(2) {
		text = enlarge(text)
	}
	tryPO(t, []byte(text))
	t.Count("files with huge numbers", 1)
}

func c12posoup(t *fw.T) { tryPO(t, []byte(soup(t.Rand, dictionary["po"], 1+t.IntN(60)))) }

func c12mo(t *fw.T) {
	c := model.Gen(t.Rand, model.Opts{Level: 2, Entries: 1 + t.IntN(6), Forms: 3, Empty: true})
	genHeader(t, c, 1)
	data := model.MO(t.Rand, c.Pairs(), model.RandMOLayout(t.Rand))
	var bo binary.ByteOrder = binary.LittleEndian
	if data[0] == 0x95 {
		bo = binary.BigEndian
	}
	switch t.IntN(4) {
	case 0: // a field of the header or of a table
		pos := 4 * t.IntN(min(len(data)/4, 60))
		old := bo.Uint32(data[pos:])
		bo.PutUint32(data[pos:], fw.Pick(t, []uint32{0, 1, 2, 0xffffffff, 0x7fffffff, 0x80000000, 0x20000000, 0x10000001, uint32(len(data)), uint32(len(data)) - 1, uint32(len(data)) + 1, old + 1, old - 1, old * 2, t.Uint32()}))
	case 1: // all texts are the same huge one
		n := bo.Uint32(data[8:])
		tab := bo.Uint32(data[12:])
		for i := uint32(0); i < n; i++ {
			bo.PutUint32(data[tab+8*i:], uint32(len(data)))
			bo.PutUint32(data[tab+8*i+4:], 0)
		}
	case 2:
		data = data[:t.IntN(len(data)+1)]
	default:
		data = mutate(t, data, []string{"\x00", "\x04", "\xff\xff\xff\xff", "\x00\x00\x00\x00", "\xde\x12\x04\x95", "\x95\x04\x12\xde"}, 4)
	}
	t.Note("MO data:\n%q", data)
	tag := language.MustParse(fw.Pick(t, []string{"de", "ar", "la", "und"}))
	for _, d := range []catalog.Decoder{catalog.NewMoDecoder(), catalog.NewMoCLDRDecoder()} {
		if tryDecoder(t, d, tag, data) {
			t.Distinct("mo", string(data))
			t.Sample("%T accepts %q", d, data)
		}
	}
}

// c12moclaim: headers that announce many messages.
func c12moclaim(t *fw.T) {
	data := make([]byte, 28+t.IntN(200))
	for i := range data {
		if t.Chance(3) {
			data[i] = byte(t.IntN(256))
		}
	}
	var bo binary.ByteOrder = binary.LittleEndian
	if t.Chance(2) {
		bo = binary.BigEndian
	}
	sizes := []uint32{0, 1, 2, 28, 1 << 10, 1 << 20, 1 << 28, 1 << 29, 1<<29 - 1, 1 << 31, 0xffffffff, uint32(len(data)), uint32(len(data)) - 8, uint32(t.IntN(len(data)))}
	bo.PutUint32(data, 0x950412de)
	bo.PutUint32(data[4:], uint32(t.IntN(2)))
	for pos := 8; pos < 28; pos += 4 {
		bo.PutUint32(data[pos:], fw.Pick(t, sizes))
	}
	t.Note("MO data:\n%q", data)
	tryDecoder(t, catalog.NewMoDecoder(), language.German, data)
	t.Distinct("claim", string(data))
	t.Sample("%q", data)
}

func c12json(t *fw.T) {
	var data []byte
	if t.Chance(3) {
		data = []byte(soup(t.Rand, dictionary["json"], 1+t.IntN(40)))
	} else {
		w := &world{Contexts: []string{"", "ctx", "é"}, IDs: []string{"a", "b", "c", "x y", "é"}}
		c := w.fillCatalog(t, language.MustParse(fw.Pick(t, faultTags)), "dom", worldOpts{Kinds: []string{"json"}, Plurals: true})
		data = mutate(t, c.Data, dictionary["json"], 4)
	}
	t.Note("JSON data:\n%q", data)
	if tryDecoder(t, catalog.NewJSONDecoder(), language.MustParse(fw.Pick(t, []string{"de", "ar", "la", "ja", "und"})), data) {
		t.Distinct("json", string(data))
		t.Sample("accepted: %q", data)
	}
}

func c12plural(t *fw.T) {
	var raw string
	switch t.IntN(3) {
	case 0:
		raw = "nplurals=" + fw.Pick(t, []string{"2", "0", "6", "99999999999999999999", "-1", "2147483647"}) + "; plural=" + soup(t.Rand, dictionary["plural"], 1+t.IntN(30)) + ";"
	case 1:
		raw = string(mutate(t, []byte(fw.Pick(t, allPluralForms())), dictionary["plural"], 2))
		if t.Chance(2) {
			e := randCExpr(t, 1+t.IntN(5))
			text := e.Text(func() bool { return t.Chance(4) }, func() string { return "" })
			if t.Chance(2) {
				text = strings.ReplaceAll(text, fw.Pick(t, []string{"1", "2", "10", "n"}), fw.Pick(t, []string{"0", "n", "(n%0)", "9223372036854775807", "(n<0)"}))
			}
			raw = "nplurals=2; plural=" + text + ";"
		}
	default:
		raw = soup(t.Rand, dictionary["plural"], 1+t.IntN(40))
	}
	t.Note("rule %q", raw)
	var rule *poplural.Rule
	var err error
	lean(t, "parsing", len(raw), func() { rule, err = poplural.Parse(raw) })
	if (rule == nil) == (err == nil) {
		t.Fail("result", "Parse returned %v and %v", rule, err)
	}
	if err != nil {
		_ = err.Error()
		return
	}
	t.Count("plural accepted", 1)
	t.Distinct("plural", raw)
	t.Sample("accepted: %q", raw)
	for _, n := range hostileNumbers {
		if _, err := rule.Evaluate(n); err != nil {
			_ = err.Error()
		}
	}
	for _, n := range []int64{0, 1, -1, math.MinInt64, math.MaxInt64} {
		rule.FormFunc(n)
	}
}

func c12cldr(t *fw.T) {
	rules := map[cldrplural.Category]string{}
	size := 0
	for k := t.IntN(3); k >= 0; k-- {
		var raw string
		switch t.IntN(8) {
		case 0:
			raw = soup(t.Rand, dictionary["cldr"], 1+t.IntN(25))
		case 1:
			raw = randCond(t)
			if t.Chance(2) {
				raw = strings.ReplaceAll(raw, fw.Pick(t, []string{"1", "2", "10", "n"}), fw.Pick(t, []string{"0", "e", "9223372036854775807", "1..0"}))
			}
		case 2:
			set := oracle.CLDR[fw.Pick(t, cldrLangs)]
			text := "n = 1"
			if len(set.Rules) > 0 {
				text = fw.Pick(t, set.Rules).Text
			}
			raw = string(mutate(t, []byte(text), dictionary["cldr"], 3))
		case 3:
			words := make([]string, 1+t.IntN(20))
			for i := range words {
				words[i] = fw.Pick(t, dictionary["cldr"])
			}
			raw = strings.Join(words, " ")
		default:
			raw = randCond(t)
		}
		rules[cldrplural.Category(t.IntN(6))] = raw
		size += len(raw)
	}
	t.Note("rules %q", rules)
	var rs *cldrplural.RuleSet
	var err error
	lean(t, "parsing", size, func() { rs, err = cldrplural.ParseRules(rules) })
	if (rs == nil) == (err == nil) {
		t.Fail("result", "ParseRules returned %v and %v", rs, err)
	}
	if err != nil {
		_ = err.Error()
		return
	}
	t.Count("cldr accepted", 1)
	t.Distinct("cldr", fmt.Sprint(rules))
	t.Sample("accepted: %q", rules)
	for _, n := range hostileNumbers {
		if _, err := rs.Evaluate(n); err != nil {
			_ = err.Error()
		}
	}
}

func c12string(t *fw.T) {
	var s string
	if t.Chance(2) {
		b := make([]byte, t.IntN(200))
		for i := range b {
			b[i] = byte(t.IntN(256))
			if t.Chance(2) {
				b[i] = "\\\"x07\nfn"[t.IntN(8)]
			}
		}
		s = string(b)
	} else {
		s = soup(t.Rand, dictionary["po"], t.IntN(30))
	}
	t.Note("string %q", s)
	t.Distinct("string", s)
	t.Sample("%q", s)
	var out string
	lean(t, "DecodePoString", len(s), func() { out = po.DecodePoString(s) })
	if len(out) > 3*len(s) {
		t.Err("size", "decoded text has %d bytes, input %d", len(out), len(s))
	}
	for _, w := range []int{-1, 0, 1, 2, 80, math.MaxInt} {
		lean(t, "EncodePoString", len(s), func() { out = po.EncodePoString(s, w) })
		if len(out) > 10*len(s)+20 {
			t.Err("size", "encoded text has %d bytes, input %d", len(out), len(s))
		}
	}
}

// amplifiers are inputs with many repetitions of the same thing.
var amplifiers = []struct {
	name   string
	format string
	make   func(n int) string
}{
	{"continued translation", "po", func(n int) string { return "msgid \"x\"\nmsgstr \"\"\n" + strings.Repeat("\"a\"\n", n/4) }},
	{"continued id", "po", func(n int) string { return "msgid \"\"\n" + strings.Repeat("\"a\"\n", n/4) + "msgstr \"y\"\n" }},
	{"continued context", "po", func(n int) string {
		return "msgctxt \"\"\n" + strings.Repeat("\"a\"\n", n/4) + "msgid \"x\"\nmsgstr \"y\"\n"
	}},
	{"continued plural", "po", func(n int) string {
		return "msgid \"x\"\nmsgid_plural \"\"\n" + strings.Repeat("\"a\"\n", n/8) + "msgstr[1] \"\"\n" + strings.Repeat("\"a\"\n", n/8)
	}},
	{"blank lines in a text", "po", func(n int) string { return "msgid \"x\"\nmsgstr \"\"\n" + strings.Repeat("\n\"a\"\n", n/5) }},
	{"translator comments", "po", func(n int) string { return strings.Repeat("# a\n", n/4) + "msgid \"x\"\nmsgstr \"y\"\n" }},
	{"empty comments", "po", func(n int) string { return strings.Repeat("#\n", n/2) + "msgid \"x\"\nmsgstr \"y\"\n" }},
	{"empty special comments", "po", func(n int) string { return strings.Repeat("#:\n", n/3) + "msgid \"x\"\nmsgstr \"y\"\n" }},
	{"extracted comments", "po", func(n int) string { return strings.Repeat("#. a\n", n/5) + "msgid \"x\"\nmsgstr \"y\"\n" }},
	{"flag comments", "po", func(n int) string { return strings.Repeat("#, a\n", n/5) + "msgid \"x\"\nmsgstr \"y\"\n" }},
	{"flags", "po", func(n int) string { return "#, " + strings.Repeat("a,", n/2) + "\nmsgid \"x\"\nmsgstr \"y\"\n" }},
	{"references", "po", func(n int) string { return "#: " + strings.Repeat("a ", n/2) + "\nmsgid \"x\"\nmsgstr \"y\"\n" }},
	{"colons", "po", func(n int) string { return "#: " + strings.Repeat(":1", n/2) + "\nmsgid \"x\"\nmsgstr \"y\"\n" }},
	{"reference comments", "po", func(n int) string { return strings.Repeat("#: a:1\n", n/7) + "msgid \"x\"\nmsgstr \"y\"\n" }},
	{"previous texts", "po", func(n int) string {
		return "#| msgid \"\"\n" + strings.Repeat("#| \"a\"\n", n/7) + "msgid \"x\"\nmsgstr \"y\"\n"
	}},
	{"obsolete entries", "po", func(n int) string { return strings.Repeat("#~ msgid \"a\"\n", n/13) + "msgid \"x\"\nmsgstr \"y\"\n" }},
	{"detached comments", "po", func(n int) string { return strings.Repeat("# a\n\n", n/5) + "msgid \"x\"\nmsgstr \"y\"\n" }},
	{"blank lines", "po", func(n int) string {
		return "msgid \"x\"\nmsgstr \"y\"\n" + strings.Repeat("\n", n) + "msgid \"z\"\nmsgstr \"y\"\n"
	}},
	{"spaces", "po", func(n int) string { return "msgid " + strings.Repeat(" ", n) + "\"x\"\nmsgstr \"y\"\n" }},
	{"one long text", "po", func(n int) string { return "msgid \"x\"\nmsgstr \"" + strings.Repeat("y", n) + "\"\n" }},
	{"escapes", "po", func(n int) string { return "msgid \"x\"\nmsgstr \"" + strings.Repeat("\\n", n/2) + "\"\n" }},
	{"backslashes", "po", func(n int) string { return "msgid \"x\"\nmsgstr \"" + strings.Repeat("\\", n/2*2) + "\"\n" }},
	{"quotes", "po", func(n int) string { return "msgid \"x\"\nmsgstr " + strings.Repeat("\"", n) + "\n" }},
	{"invalid bytes", "po", func(n int) string { return "msgid \"x\"\nmsgstr \"" + strings.Repeat("\xff", n) + "\"\n" }},
	{"header lines", "po", func(n int) string { return "msgid \"\"\nmsgstr \"" + strings.Repeat("a: b\\n", n/6) + "\"\n" }},
	{"entries", "po", func(n int) string {
		var b strings.Builder
		for i := 0; b.Len() < n; i++ {
			fmt.Fprintf(&b, "msgid \"%d\"\nmsgstr \"y\"\n", i)
		}
		return b.String()
	}},
	{"contexts", "po", func(n int) string {
		var b strings.Builder
		for i := 0; b.Len() < n; i++ {
			fmt.Fprintf(&b, "msgctxt \"%d\"\nmsgid \"x\"\nmsgstr \"y\"\n\n", i)
		}
		return b.String()
	}},
	{"plural forms", "po", func(n int) string {
		var b strings.Builder
		b.WriteString("msgid \"x\"\nmsgid_plural \"y\"\n")
		for i := 0; b.Len() < n; i++ {
			fmt.Fprintf(&b, "msgstr[%d] \"y\"\n", i)
		}
		return b.String()
	}},
	{"parentheses", "plural", func(n int) string {
		return "nplurals=2; plural=" + strings.Repeat("(", n/2) + "n" + strings.Repeat(")", n/2) + ";"
	}},
	{"open parentheses", "plural", func(n int) string { return "nplurals=2; plural=" + strings.Repeat("(", n) }},
	{"or", "plural", func(n int) string { return "nplurals=2; plural=n" + strings.Repeat("||n", n/3) + ";" }},
	{"and", "plural", func(n int) string { return "nplurals=2; plural=n" + strings.Repeat("&&n", n/3) + ";" }},
	{"modulo", "plural", func(n int) string { return "nplurals=2; plural=n" + strings.Repeat("%n", n/2) + ";" }},
	{"comparisons", "plural", func(n int) string { return "nplurals=2; plural=n" + strings.Repeat("==n", n/3) + ";" }},
	{"conditions", "plural", func(n int) string {
		return "nplurals=2; plural=" + strings.Repeat("n==1?0:", n/7) + "1;"
	}},
	{"nested conditions", "plural", func(n int) string {
		return "nplurals=2; plural=" + strings.Repeat("n?", n/4) + "1" + strings.Repeat(":0", n/4) + ";"
	}},
	{"digits", "plural", func(n int) string { return "nplurals=2; plural=" + strings.Repeat("1", n) + ";" }},
	{"plural spaces", "plural", func(n int) string { return "nplurals=2; plural=" + strings.Repeat(" ", n) + "n;" }},
	{"garbage", "plural", func(n int) string { return strings.Repeat("é", n/2) }},
	{"cldr or", "cldr", func(n int) string { return "n = 1" + strings.Repeat(" or n = 1", n/9) }},
	{"cldr and", "cldr", func(n int) string { return "n = 1" + strings.Repeat(" and n = 1", n/10) }},
	{"cldr list", "cldr", func(n int) string { return "n = 1" + strings.Repeat(",1", n/2) }},
	{"cldr ranges", "cldr", func(n int) string { return "n = 1..2" + strings.Repeat(",1..2", n/5) }},
	{"cldr samples", "cldr", func(n int) string { return "n = 1 @integer 1" + strings.Repeat(", 1~99999999", n/12) }},
	{"cldr spaces", "cldr", func(n int) string { return "n" + strings.Repeat(" ", n) + "= 1" }},
	{"cldr digits", "cldr", func(n int) string { return "n = " + strings.Repeat("1", n) }},
	{"json nesting", "json", func(n int) string { return strings.Repeat("{\"a\":", n/5) }},
	{"json lists", "json", func(n int) string { return "{\"a\":" + strings.Repeat("[", n) }},
	{"json keys", "json", func(n int) string {
		var b strings.Builder
		b.WriteString("{")
		for i := 0; b.Len() < n; i++ {
			fmt.Fprintf(&b, "\"%d\":\"x\",", i)
		}
		return b.String() + "\"z\":\"z\"}"
	}},
	{"json contexts", "json", func(n int) string {
		var b strings.Builder
		b.WriteString("{")
		for i := 0; b.Len() < n; i++ {
			fmt.Fprintf(&b, "\"a_%d\":{\"context\":\"%d\",\"other\":\"x\"},", i, i)
		}
		return b.String() + "\"z\":\"z\"}"
	}},
	{"json plurals", "json", func(n int) string {
		var b strings.Builder
		b.WriteString("{")
		for i := 0; b.Len() < n; i++ {
			fmt.Fprintf(&b, "\"%d\":{\"one\":\"x\",\"other\":\"x\"},", i)
		}
		return b.String() + "\"z\":\"z\"}"
	}},
	{"json same key", "json", func(n int) string { return "{" + strings.Repeat("\"a\":\"b\",", n/8) + "\"z\":\"z\"}" }},
	{"mo same text", "mo", func(n int) string {
		count := n / 32
		buf := make([]byte, 28+16*count)
		binary.LittleEndian.PutUint32(buf, 0x950412de)
		binary.LittleEndian.PutUint32(buf[8:], uint32(count))
		binary.LittleEndian.PutUint32(buf[12:], 28)
		binary.LittleEndian.PutUint32(buf[16:], uint32(28+8*count))
		text := len(buf)
		buf = append(buf, strings.Repeat("x", n/2)...)
		for i := 0; i < 2*count; i++ {
			binary.LittleEndian.PutUint32(buf[28+8*i:], uint32(n/2-i%(n/4)))
			binary.LittleEndian.PutUint32(buf[28+8*i+4:], uint32(text))
		}
		return string(buf)
	}},
	{"mo forms", "mo", func(n int) string {
		return string(model.MO(fw.NewRand(n), []model.MOPair{{Orig: "a\x00b", Trans: strings.Repeat("\x00", n)}}, model.MOLayout{}))
	}},
	{"mo contexts", "mo", func(n int) string {
		return string(model.MO(fw.NewRand(n), []model.MOPair{{Orig: strings.Repeat("\x04", n), Trans: "x"}}, model.MOLayout{}))
	}},
	{"mo messages", "mo", func(n int) string {
		var ps []model.MOPair
		for i := 0; i < n/24; i++ {
			ps = append(ps, model.MOPair{Orig: fmt.Sprint(i), Trans: "x"})
		}
		return string(model.MO(fw.NewRand(n), ps, model.MOLayout{}))
	}},
}

func c12amplify(t *fw.T) {
	a := amplifiers[t.Idx%len(amplifiers)]
	sizes := []int{1 << 16, 1 << 18, 1 << 20, 1 << 12}
	if t.Thor {
		sizes = append(sizes, 1<<22, 1<<14, 1<<19)
	}
	size := sizes[t.Idx/len(amplifiers)%len(sizes)]
	data := a.make(size)
	t.Note("%s, %d bytes", a.name, len(data))
	t.Distinct(a.name, size)
	t.Sample("%s, %d bytes", a.name, len(data))
	switch a.format {
	case "po":
		for _, ignore := range []bool{false, true} {
			bounded(t, "the PO parser", len(data), func() {
				p := po.NewParser()
				p.SetIgnoreComments(ignore)
				_, _ = p.Parse(strings.NewReader(data))
			})
		}
		var f *po.File
		bounded(t, "the PO decoder", len(data), func() { _, _ = catalog.NewPoDecoder().Decode(language.German, "d", []byte(data)) })
		f, err := po.ParseString(data)
		if err == nil {
			for _, w := range []int{-1, 70} {
				bounded(t, "the PO encoder", len(data)+8000, func() {
					var buf bytes.Buffer
					e := po.NewEncoder(&buf)
					e.SetWrapWidth(w)
					_ = e.Encode(f)
				})
			}
		}
		bounded(t, "DecodePoString", len(data), func() { po.DecodePoString(data) })
	case "mo", "json":
		d := catalog.NewMoDecoder()
		if a.format == "json" {
			d = catalog.NewJSONDecoder()
		}
		var cat catalog.Catalog
		bounded(t, "the decoder", len(data), func() { cat, _ = d.Decode(language.German, "d", []byte(data)) })
		if cat != nil {
			useCatalog(t, cat, 5)
		}
	case "plural":
		var r *poplural.Rule
		bounded(t, "the plural parser", len(data), func() { r, _ = poplural.Parse(data) })
		if r != nil {
			bounded(t, "the evaluation", len(data), func() {
				for _, n := range []int64{0, 1, 2, 5, math.MaxInt64} {
					r.FormFunc(n)
				}
			})
		}
		header := "msgid \"\"\nmsgstr \"Plural-Forms: " + data + "\\n\"\n\nmsgid \"x\"\nmsgstr \"y\"\n"
		bounded(t, "the PO decoder", len(data), func() { _, _ = catalog.NewPoDecoder().Decode(language.German, "d", []byte(header)) })
	case "cldr":
		var r *cldrplural.RuleSet
		bounded(t, "the rule parser", len(data), func() {
			r, _ = cldrplural.ParseRules(map[cldrplural.Category]string{cldrplural.One: data})
		})
		if r != nil {
			bounded(t, "the evaluation", len(data), func() {
				for _, n := range []any{0, 1, "1.5", "3c6"} {
					_, _ = r.Evaluate(n)
				}
			})
		}
	}
}

func init() {
	register(&fw.Check{
		ID: "C12", QuickScale: 3,
		Rule: "valid files and rules are mutated (bits, deletions, copies, insertion of tokens of the format), built from random tokens, or amplified (the same construct repeated up to 1 MB); MO tables and counts are set to hostile values, single numbers of valid files and headers (plural forms, indexes, lines) are replaced by huge ones. Every input is given to the decoders, parsers and string functions; allocation (TotalAlloc) and CPU time are compared with the input size, results must be either a value or an error, and everything accepted is used (all lookups with hostile numbers, encoding). Panics, fatal errors, memory exhaustion and hangs are attributed to the case by the worker journal. Non-trivial: accepted inputs, amplified inputs, and string inputs",
		Gens: []fw.Gen{
			{Name: "amplify", Quick: 3 * len(amplifiers), Thor: 7 * len(amplifiers), Run: c12amplify},
			{Name: "po-mutated", Quick: 3000, Thor: 150000, Run: c12po},
			{Name: "numbers", Quick: 2500, Thor: 80000, Run: c12numbers},
			{Name: "po-tokens", Quick: 3000, Thor: 150000, Run: c12posoup},
			{Name: "mo-mutated", Quick: 3000, Thor: 150000, Run: c12mo},
			{Name: "mo-claims", Quick: 2000, Thor: 50000, Run: c12moclaim},
			{Name: "json", Quick: 2000, Thor: 100000, Run: c12json},
			{Name: "plural-rules", Quick: 4000, Thor: 300000, Run: c12plural},
			{Name: "cldr-rules", Quick: 4000, Thor: 300000, Run: c12cldr},
			{Name: "strings", Quick: 4000, Thor: 200000, Run: c12string},
		},
		MinNonTriv: 5000,
		Need:       []string{"po accepted", "decoded", "rejected", "numbers accepted", "files with huge numbers", "plural accepted", "cldr accepted", "lookups"},
		CPULimit:   60,
		Assumptions: []string{
			fmt.Sprintf("proportional means: at most %d bytes allocated per input byte plus %d KB, at most %v CPU time per byte plus %v", allocPerByte, allocBase>>10, cpuPerByte, cpuBase),
			"headers with thousands of different unknown fields are not covered (quadratic in the number of fields)",
		},
	})
}
