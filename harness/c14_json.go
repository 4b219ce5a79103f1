package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"maps"
	"slices"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"

	"verifharness/fw"
	"verifharness/model"
	"verifharness/oracle"
)

// jmsg is a message of a JSON file.
type jmsg struct {
	Key, Ctx, Comment string
	Forms             map[string]string // category name
	Extra             map[string]string // fields the format does not know
}

// stored is what a catalog of a language keeps: the categories of the language, all of them if there is
// more than Other.
func (m jmsg) stored(set *oracle.CLDRSet) map[string]string {
	if len(m.Forms) == 1 {
		return maps.Clone(m.Forms)
	}
	out := map[string]string{}
	for _, c := range set.Cats {
		out[c] = m.Forms[c]
	}
	return out
}

func (m jmsg) message() *catalog.JSONMessage {
	out := &catalog.JSONMessage{Comment: m.Comment, Context: m.Ctx, Translations: map[cldrplural.Category]string{}}
	for c, s := range m.Forms {
		out.Translations[categoryByName[c]] = s
	}
	return out
}

var jsonIDs = []string{"a", "b", "a_b", "a_b_c", "_", "hello", "Hello", "app.name", "x y", "é", "日本", "a\"b", "\\", "<b>&", "a\nb", "\u2028", "\x01", "context", "other", "comment", "🙂", "null", " ", "b_ctx", "a.b.c", "%d files"}
var jsonCtxs = []string{"ctx", "b", "b_c", "c", "ctx_b", "Ctx", "é", "_", "x y", "\"", "<", "errors"}

func genJSON(t *fw.T, set *oracle.CLDRSet, n int) []jmsg {
	seen := map[string]bool{}
	var out []jmsg
	for i := 0; i < n; i++ {
		m := jmsg{Key: fw.Pick(t, jsonIDs), Forms: map[string]string{}}
		if t.Chance(3) {
			m.Key = model.Text(t.Rand, t.IntN(3), 3)
		}
		if n > 30 {
			m.Key += fmt.Sprint(i)
		}
		if t.Chance(2) {
			m.Ctx = fw.Pick(t, jsonCtxs)
			if t.Chance(10) {
				m.Key = ""
			}
			m.Key += "_" + m.Ctx
		} else if t.Chance(5) {
			m.Key += "_" + fw.Pick(t, jsonCtxs) // looks like a context
		}
		if seen[m.Key] || m.Key == "" {
			continue
		}
		seen[m.Key] = true
		if t.Chance(3) {
			m.Comment = model.Text(t.Rand, t.IntN(3), 4)
		}
		text := func() string {
			switch t.IntN(8) {
			case 0:
				return ""
			case 1:
				return fw.Pick(t, []string{"<a href=\"x\">&</a>", "\u2028\u2029", "\x00", "\x7f", " ", "null", "{}", "\ufffd", "\U0010ffff"})
			}
			return fmt.Sprintf("T%d·%s", i, model.Text(t.Rand, t.IntN(3), 5))
		}
		m.Forms["Other"] = text()
		if t.Chance(2) {
			for _, c := range oracle.Categories {
				if slices.Contains(set.Cats, c) && !t.Chance(4) || t.Chance(5) {
					m.Forms[c] = text()
				}
			}
		}
		if t.Chance(10) {
			m.Extra = map[string]string{fw.Pick(t, []string{"description", "id", "oneone", "others", "plural", ""}): "x"}
		}
		out = append(out, m)
	}
	return out
}

// jsonString writes a string with random escapes.
func jsonString(t *fw.T, s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n' && t.Chance(2):
			b.WriteString(`\n`)
		case r == '/' && t.Chance(2):
			b.WriteString(`\/`)
		case r < 0x20 || r < 0x10000 && t.Chance(12):
			f := `\u%04x`
			if t.Chance(2) {
				f = `\u%04X`
			}
			fmt.Fprintf(&b, f, r)
		case r >= 0x10000 && t.Chance(3):
			v := r - 0x10000
			fmt.Fprintf(&b, `\u%04x\u%04x`, 0xd800+v>>10, 0xdc00+v&0x3ff)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// jsonFile writes the messages with random white space, order and escapes.
func jsonFile(t *fw.T, ms []jmsg) []byte {
	ms = slices.Clone(ms)
	t.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
	spaces := fw.Pick(t, [][]string{{""}, {" "}, {"", " ", "\n", "\t", "\r\n  "}, {"\n\t"}})
	ws := func() string { return fw.Pick(t, spaces) }
	var b strings.Builder
	b.WriteString(ws() + "{" + ws())
	for i, m := range ms {
		if i > 0 {
			b.WriteString("," + ws())
		}
		b.WriteString(jsonString(t, m.Key) + ws() + ":" + ws())
		other, only := m.Forms["Other"]
		if m.Ctx == "" && m.Comment == "" && only && len(m.Forms) == 1 && len(m.Extra) == 0 && !t.Chance(4) {
			b.WriteString(jsonString(t, other) + ws())
			continue
		}
		fields := [][2]string{}
		for _, c := range fw.SortedKeys(m.Forms) {
			s := m.Forms[c]
			name := strings.ToLower(c)
			if t.Chance(6) {
				name = fw.Pick(t, []string{c, strings.ToUpper(c)})
			}
			fields = append(fields, [2]string{name, s})
		}
		if m.Ctx != "" || t.Chance(10) {
			fields = append(fields, [2]string{fw.Pick(t, []string{"context", "context", "Context"}), m.Ctx})
		}
		if m.Comment != "" || t.Chance(10) {
			fields = append(fields, [2]string{fw.Pick(t, []string{"comment", "comment", "Comment"}), m.Comment})
		}
		for k, s := range m.Extra {
			fields = append(fields, [2]string{k, s})
		}
		slices.SortFunc(fields, func(a, b [2]string) int { return strings.Compare(a[0], b[0]) })
		t.Shuffle(len(fields), func(i, j int) { fields[i], fields[j] = fields[j], fields[i] })
		b.WriteString("{" + ws())
		for k, f := range fields {
			if k > 0 {
				b.WriteString("," + ws())
			}
			b.WriteString(jsonString(t, f[0]) + ws() + ":" + ws() + jsonString(t, f[1]) + ws())
		}
		b.WriteString("}" + ws())
	}
	b.WriteString("}" + ws())
	return []byte(b.String())
}

// checkJSON compares a catalog with the messages.
func checkJSON(t *fw.T, what string, cat catalog.JSONCatalog, tag language.Tag, set *oracle.CLDRSet, ms []jmsg) {
	if cat.Language() != tag || cat.Domain() != "dom" {
		t.Err("labels", "%s: catalog is labelled %s %q", what, cat.Language(), cat.Domain())
	}
	got := cat.Messages()
	for _, m := range ms {
		g := got[m.Key]
		if g == nil {
			t.Fail("lost", "%s: message %q is lost", what, m.Key)
		}
		delete(got, m.Key)
		if g.Comment != m.Comment || g.Context != m.Ctx {
			t.Fail("fields", "%s: message %q has comment %q and context %q, want %q and %q", what, m.Key, g.Comment, g.Context, m.Comment, m.Ctx)
		}
		diffForms(t, what, m, g.Translations, m.stored(set))
		t.Eval(1)
	}
	for k := range got {
		t.Fail("extra", "%s: message %q is not in the input", what, k)
	}
	// Lookups of the messages and of keys nearby
	byKey := map[string]jmsg{}
	for _, m := range ms {
		byKey[m.Key] = m
	}
	type ask struct{ ctx, id string }
	var asks []ask
	for i, m := range ms {
		if i > 25 {
			break
		}
		asks = append(asks, ask{m.Ctx, strings.TrimSuffix(m.Key, "_"+m.Ctx)}, ask{"", m.Key}, ask{fw.Pick(t, jsonCtxs), m.Key}, ask{fw.Pick(t, jsonCtxs), fw.Pick(t, jsonIDs)}, ask{m.Ctx, m.Key})
		if m.Ctx == "" {
			asks[len(asks)-5].id = m.Key
		}
		if k := strings.LastIndex(m.Key, "_"); k >= 0 {
			asks = append(asks, ask{m.Key[k+1:], m.Key[:k]})
		}
	}
	found := 0
	for _, a := range asks {
		key := a.id
		if a.ctx != "" {
			key += "_" + a.ctx
		}
		var forms map[string]string
		if m, ok := byKey[key]; ok && m.Ctx == a.ctx {
			forms = m.stored(set)
		}
		checkLookup(t, cat, a.ctx, a.id, nil, forms["Other"])
		for k := 0; k < 3; k++ {
			n := randNum(t, true, false)
			num, ok := oracle.ParseNum(n.Text)
			if !ok {
				continue
			}
			c := set.Category(num)
			if forms[c] != "" {
				found++
				t.Count("category "+c, 1)
			}
			checkLookup(t, cat, a.ctx, a.id, n.V, forms[c])
		}
		if _, err := cat.LookupPlural(a.ctx, a.id, "no number"); err == nil {
			t.Fail("bad-number", "%s: a text that is no number is answered without an error", what)
		}
	}
	t.Count("plural texts compared", found)
}

func diffForms(t *fw.T, what string, m jmsg, got map[cldrplural.Category]string, want map[string]string) {
	ok := len(got) == len(want)
	for c, s := range want {
		g, has := got[categoryByName[c]]
		ok = ok && has && g == s
	}
	if !ok {
		t.Fail("categories", "%s: message %q has %q, want %q", what, m.Key, got, want)
	}
}

// jsonKeys returns the keys of the top level object in file order.
func jsonKeys(t *fw.T, data []byte) []string {
	d := json.NewDecoder(bytes.NewReader(data))
	var keys []string
	depth := 0
	isKey := false
	for {
		tok, err := d.Token()
		if err != nil {
			return keys
		}
		switch v := tok.(type) {
		case json.Delim:
			if v == '{' || v == '[' {
				depth++
			} else {
				depth--
			}
			isKey = depth == 1
		case string:
			if depth == 1 && isKey {
				keys = append(keys, v)
				isKey = false
				continue
			}
			isKey = depth == 1
		default:
			isKey = depth == 1
		}
	}
}

func jsonOf(t *fw.T, cat catalog.JSONCatalog) []byte {
	var buf bytes.Buffer
	if err := catalog.NewJSONEncoder(&buf).Encode(cat); err != nil {
		t.Fail("encode", "catalog cannot be written: %v", err)
	}
	return buf.Bytes()
}

func c14round(t *fw.T) {
	tag := randTag(t, cldrLangs, t.IntN(2*len(cldrLangs)))
	set, _ := cldrFor(tag)
	n := 1 + t.IntN(10)
	if t.Chance(60) {
		n = 300
	}
	ms := genJSON(t, set, n)
	if len(ms) == 0 {
		return
	}
	data := jsonFile(t, ms)
	t.Note("%s (%v)\n%s", tag, set.Cats, data)
	c, err := catalog.NewJSONDecoder().Decode(tag, "dom", slices.Clone(data))
	if err != nil {
		t.Fail("rejected", "valid file rejected: %v", err)
	}
	cat, ok := c.(catalog.JSONCatalog)
	if !ok {
		t.Fail("type", "decoder returns %T", c)
	}
	checkJSON(t, "decoded", cat, tag, set, ms)

	// Written and read again
	out := jsonOf(t, cat)
	if !json.Valid(out) {
		t.Fail("invalid", "encoder writes invalid JSON:\n%s", out)
	}
	keys := jsonKeys(t, out)
	if !slices.IsSorted(keys) || len(keys) != len(ms) {
		t.Fail("keys", "keys of the written file are not sorted or complete: %q", keys)
	}
	if again := jsonOf(t, cat); !bytes.Equal(again, out) {
		t.Fail("repeat", "second encoding differs:\n%s\n%s", out, again)
	}
	back := catalog.NewJSONCatalog(tag, "dom")
	if err := json.Unmarshal(out, back); err != nil {
		t.Fail("read-back", "written file is rejected: %v\n%s", err, out)
	}
	checkJSON(t, "read back", back, tag, set, ms)
	if again := jsonOf(t, back); !bytes.Equal(again, out) {
		t.Fail("fixpoint", "encoding of the catalog that was read back differs:\n%s\n%s", out, again)
	}
	compact, err := json.Marshal(cat)
	var flat bytes.Buffer
	if err != nil || json.Compact(&flat, out) != nil || !bytes.Equal(flat.Bytes(), compact) {
		t.Fail("marshal", "json.Marshal returns %s (%v), want %s", compact, err, flat.Bytes())
	}

	// The same messages from memory
	in := catalog.JSONMessages{}
	for _, m := range ms {
		in[m.Key] = m.message()
	}
	made, err := catalog.NewJSONCatalogWithMessages(tag, "dom", in)
	if err != nil {
		t.Fail("messages", "NewJSONCatalogWithMessages: %v", err)
	}
	for _, m := range ms { // the input is left as it was
		g := in[m.Key]
		if g == nil || g.Comment != m.Comment || g.Context != m.Ctx {
			t.Fail("input", "message %q was changed to %v", m.Key, g)
		}
		diffForms(t, "input of NewJSONCatalogWithMessages", m, g.Translations, m.Forms)
	}
	checkJSON(t, "from messages", made, tag, set, ms)
	if again := jsonOf(t, made); !bytes.Equal(again, out) {
		t.Fail("equal-bytes", "equal catalogs are written differently:\n%s\n%s", out, again)
	}
	for _, m := range ms {
		msg := m.message()
		catalog.ApplyPluralCategoriesToJSONMessage(tag, msg)
		diffForms(t, "ApplyPluralCategoriesToJSONMessage", m, msg.Translations, m.stored(set))
		one := m.message()
		data, err := json.Marshal(one)
		var again catalog.JSONMessage
		if err != nil || json.Unmarshal(data, &again) != nil {
			t.Fail("message", "message %q as %s: %v", m.Key, data, err)
		}
		diffForms(t, "single message", m, again.Translations, m.Forms)
		if again.Comment != m.Comment || again.Context != m.Ctx {
			t.Fail("message", "message %q is read back as %v", m.Key, again)
		}
		pre := m.message() // for messages without Other
		delete(pre.Translations, cldrplural.Other)
		if len(pre.Translations) > 0 {
			catalog.ApplyPluralCategoriesToJSONMessage(tag, pre)
			want := jmsg{Key: m.Key, Forms: maps.Clone(m.Forms)}
			want.Forms["Other"] = ""
			diffForms(t, "ApplyPluralCategoriesToJSONMessage without Other", m, pre.Translations, want.stored(set))
		}
	}
	t.Distinct("round", tag.String(), string(out))
	t.Sample("%s: %d messages %s", tag, len(ms), compact)
}

// c14reject: files with one fault are rejected, and the same file without it is accepted.
func c14reject(t *fw.T) {
	tag := randTag(t, cldrLangs, t.IntN(2*len(cldrLangs)))
	set, _ := cldrFor(tag)
	ms := genJSON(t, set, 1+t.IntN(5))
	if len(ms) == 0 {
		return
	}
	good := jsonFile(t, ms)
	k := t.IntN(len(ms))
	bad := slices.Clone(ms)
	m := &bad[k]
	m.Forms = maps.Clone(m.Forms)
	var data []byte
	memory := true                // also a fault for messages in memory
	inject := func(text string) { // puts text behind the first brace
		s := string(jsonFile(t, bad))
		i := strings.Index(s, "{") + 1
		data = []byte(s[:i] + text + s[i:])
		memory = false
	}
	what := fw.Pick(t, []string{"no other", "context", "context prefix", "empty key", "null", "number", "list", "field number", "cut", "garbage", "empty", "not an object", "syntax", "context without separator"})
	if !slices.Contains([]string{"no other", "context", "context prefix", "empty key", "context without separator"}, what) {
		memory = false
	}
	switch what {
	case "no other":
		delete(m.Forms, "Other")
	case "context":
		m.Ctx = fw.Pick(t, []string{"zzz", m.Ctx + "z", "_" + m.Key + "x"})
	case "context prefix":
		if m.Ctx == "" {
			return
		}
		m.Key = fw.Pick(t, []string{m.Key + " ", m.Ctx + "_" + "k", strings.ToUpper(m.Key) + "X", m.Ctx + "q"})
	case "context without separator":
		if m.Ctx == "" {
			return
		}
		m.Key = fw.Pick(t, []string{m.Ctx, "a" + m.Ctx, "a." + m.Ctx, "a-" + m.Ctx})
		if strings.HasSuffix(m.Key, "_"+m.Ctx) {
			return
		}
	case "empty key":
		m.Key, m.Ctx = "", ""
	case "null":
		inject(`"nothing": null, `)
	case "number":
		inject(fw.Pick(t, []string{`"number": 3, `, `"bool": true, `, `"float": 1.5, `}))
	case "list":
		inject(fw.Pick(t, []string{`"list": ["a"], `, `"list": [], `}))
	case "field number":
		inject(fw.Pick(t, []string{`"a list": {"other": 3}, `, `"a list": {"other": ["x"]}, `, `"a list": {"other": {"x": "y"}}, `, `"a list": {"other": "x", "one": 1}, `, `"a list": {"other": "x", "comment": false}, `, `"a list": {"other": "x", "context": ["x"]}, `}))
	case "cut":
		trimmed := bytes.TrimRight(good, " \t\r\n")
		data = trimmed[:t.IntN(len(trimmed))]
	case "garbage":
		data = append(slices.Clone(good), fw.Pick(t, []string{"x", "{}", "}", "\x00", ",", "null"})...)
	case "empty":
		data = []byte(fw.Pick(t, []string{"", "{}", " { } ", "\n", "null", "[]"}))
	case "not an object":
		data = []byte(fw.Pick(t, []string{`"text"`, "3", "true", `["a", "b"]`, `[{"a": "b"}]`}))
	case "syntax":
		i := bytes.IndexByte(good, '{')
		data = slices.Concat(good[:i+1], []byte(fw.Pick(t, []string{",", ":", "}", "x", "'a':'b',", `"a" "b",`, `"a":"b";`, "// x\n"})), good[i+1:])
	}
	keys := map[string]bool{}
	for _, m := range bad {
		if keys[m.Key] { // the changed key exists already
			return
		}
		keys[m.Key] = true
	}
	if data == nil {
		data = jsonFile(t, bad)
	}
	t.Note("%s, %s:\n%s", tag, what, data)
	if _, err := catalog.NewJSONDecoder().Decode(tag, "dom", good); err != nil {
		t.Fail("rejected", "valid file rejected: %v\n%s", err, good)
	}
	cat, err := catalog.NewJSONDecoder().Decode(tag, "dom", data)
	if err == nil || cat != nil {
		t.Fail("accepted", "%s: file is accepted (%v, %v)", what, cat, err)
	}
	// the same as the second file of a catalog
	second, err2 := catalog.NewJSONDecoder().Decode(tag, "dom", good)
	if err2 != nil {
		t.Fail("rejected", "valid file rejected: %v\n%s", err2, good)
	}
	if jc, ok := second.(catalog.JSONCatalog); ok {
		before := jsonOf(t, jc)
		if err := json.Unmarshal(data, jc); err == nil {
			t.Fail("accepted-second", "%s: accepted as the second file of a catalog", what)
		}
		if after := jsonOf(t, jc); slices.Contains([]string{"cut", "garbage", "empty", "not an object", "syntax"}, what) && !bytes.Equal(before, after) {
			t.Fail("changed-second", "%s: the rejected file changes the catalog from\n%s\nto\n%s", what, before, after)
		}
		t.Count("rejected as second file", 1)
	}
	if memory {
		in := catalog.JSONMessages{}
		for _, m := range bad {
			in[m.Key] = m.message()
		}
		if cat, err := catalog.NewJSONCatalogWithMessages(tag, "dom", in); err == nil || cat != nil {
			t.Fail("accepted-messages", "%s: messages are accepted", what)
		}
	} else if what == "null" {
		if cat, err := catalog.NewJSONCatalogWithMessages(tag, "dom", catalog.JSONMessages{"a": nil}); err == nil || cat != nil {
			t.Fail("accepted-messages", "a nil message is accepted")
		}
	}
	t.Eval(2)
	t.Count("rejected: "+what, 1)
	t.Distinct("reject", string(data))
	t.Sample("%s: %v", what, err)
}

// c14writer: write errors are reported; nil and empty catalogs.
// c14fill fills one catalog from several files; every key is there once, as the last file has it.
func c14fill(t *fw.T) {
	tag := randTag(t, cldrLangs, t.IntN(2*len(cldrLangs)))
	set, _ := cldrFor(tag)
	cat := catalog.NewJSONCatalog(tag, "dom")
	var all []jmsg
	if t.Chance(3) {
		all = genJSON(t, set, 1+t.IntN(6))
		in := catalog.JSONMessages{}
		for _, m := range all {
			in[m.Key] = m.message()
		}
		var err error
		if cat, err = catalog.NewJSONCatalogWithMessages(tag, "dom", in); err != nil {
			t.Fail("messages", "NewJSONCatalogWithMessages: %v", err)
		}
		t.Note("%s: made with %v", tag, all)
	}
	for i := 2 + t.IntN(3); i > 0; i-- {
		ms := genJSON(t, set, 1+t.IntN(6))
		have := map[string]bool{}
		for _, m := range ms {
			have[m.Key] = true
		}
		for _, m := range all { // messages of earlier files with other content
			if have[m.Key] || !t.Chance(3) {
				continue
			}
			have[m.Key] = true
			n := m
			n.Forms = map[string]string{"Other": fmt.Sprintf("again %d", i)}
			if t.Chance(2) {
				for _, c := range set.Cats {
					n.Forms[c] = fmt.Sprintf("again %d %s", i, c)
				}
			}
			n.Comment = ""
			if k := strings.LastIndex(m.Key, "_"); k >= 0 && t.Chance(2) {
				n.Ctx = fw.Pick(t, []string{"", m.Key[k+1:]})
			}
			if n.Ctx != m.Ctx {
				t.Count("keys that get another context", 1)
			}
			ms = append(ms, n)
		}
		if len(ms) == 0 {
			continue
		}
		data := jsonFile(t, ms)
		t.Note("%s\n%s", tag, data)
		if err := json.Unmarshal(data, cat); err != nil {
			t.Fail("rejected", "valid file rejected: %v", err)
		}
		var merged []jmsg
		for _, m := range all {
			if !have[m.Key] {
				merged = append(merged, m)
			}
		}
		all = append(merged, ms...)
		checkJSON(t, "filled", cat, tag, set, all)
	}
	if len(all) == 0 {
		return
	}
	in := catalog.JSONMessages{}
	for _, m := range all {
		in[m.Key] = m.message()
	}
	made, err := catalog.NewJSONCatalogWithMessages(tag, "dom", in)
	if err != nil {
		t.Fail("messages", "NewJSONCatalogWithMessages: %v", err)
	}
	if a, b := jsonOf(t, cat), jsonOf(t, made); !bytes.Equal(a, b) {
		t.Fail("equal-bytes", "the catalog filled from several files is written as\n%s\nthe same messages as\n%s", a, b)
	}
	t.Distinct("fill", tag.String(), string(jsonOf(t, cat)))
	t.Sample("%s: %d messages from several files", tag, len(all))
}

func c14writer(t *fw.T) {
	tag := randTag(t, cldrLangs, t.IntN(2*len(cldrLangs)))
	set, _ := cldrFor(tag)
	in := catalog.JSONMessages{}
	for _, m := range genJSON(t, set, 1+t.IntN(6)) {
		in[m.Key] = m.message()
	}
	cat, err := catalog.NewJSONCatalogWithMessages(tag, "dom", in)
	if err != nil {
		t.Fail("messages", "NewJSONCatalogWithMessages: %v", err)
	}
	all := jsonOf(t, cat)
	cause := errors.New("disk full")
	k := t.IntN(len(all))
	if err := catalog.NewJSONEncoder(&failWriter{k, cause}).Encode(cat); !errors.Is(err, cause) {
		t.Fail("write-error-lost", "writer failing after %d of %d bytes: Encode returns %v", k, len(all), err)
	}
	if err := catalog.NewJSONEncoder(&failWriter{t.IntN(2), cause}).Encode(nil); !errors.Is(err, cause) {
		t.Fail("write-error-lost", "Encode(nil): %v", err)
	}
	if err := catalog.NewJSONEncoder(&failWriter{len(all), cause}).Encode(cat); err != nil {
		t.Fail("spurious-error", "writer with exactly enough space: %v", err)
	}
	if s := strings.TrimSpace(string(jsonOf(t, nil))); s != "{}" {
		t.Fail("nil", "Encode(nil) writes %q", s)
	}
	if s := strings.TrimSpace(string(jsonOf(t, catalog.NewJSONCatalog(tag, "dom")))); s != "{}" {
		t.Fail("empty", "an empty catalog is written as %q", s)
	}
	t.Eval(4)
	t.Count("writer faults", 1)
	t.Distinct("writer", k, string(all))
	t.Sample("fails after %d of %d bytes", k, len(all))
}

func init() {
	register(&fw.Check{
		ID: "C14", QuickScale: 2,
		Rule: "JSON messages (keys that look like contexts, comments, all subsets of categories, empty texts, special characters) are written with random white space, order, escapes and field capitalisation; the decoded catalog is compared with them (Messages and lookups of existing and near-miss keys with numbers), encoded (valid, sorted keys, repeated, read back, compared byte by byte with the encoding of an equal catalog made from memory). Files with one fault must be rejected; writers fail at random positions. Non-trivial: all",
		Gens: []fw.Gen{
			{Name: "round", Quick: 6000, Thor: 250000, Run: c14round},
			{Name: "reject", Quick: 5000, Thor: 150000, Run: c14reject},
			{Name: "writer", Quick: 1500, Thor: 40000, Run: c14writer},
			{Name: "fill", Quick: 2500, Thor: 100000, Run: c14fill},
		},
		MinNonTriv: 5000,
		Need:       []string{"plural texts compared", "category Zero", "category One", "category Two", "category Few", "category Many", "category Other", "writer faults", "rejected: no other", "rejected: context", "rejected: null", "keys that get another context"},
		Assumptions: []string{
			"texts are valid UTF-8; keys are unique in a file and field names are unique up to capitalisation",
			"unknown fields with a text are ignored; null as the value of a field is not covered",
		},
	})
}
