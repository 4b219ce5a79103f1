package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"maps"
	"reflect"
	"slices"
	"sort"
	"strings"
	"testing/fstest"
	"time"

	"golang.org/x/text/language"
	"golang.org/x/text/message"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/humanize"

	"verifharness/fw"
	"verifharness/model"
)

// checkComplete compares the messages a catalog hands out with its content.
func checkComplete(t *fw.T, c *wcat, cat catalog.Catalog) {
	same := func(ctx, id string, tr map[int]string) {
		forms := c.Live[ctx][id]
		for f := 0; f < 12; f++ {
			if tr[f] != forms[f] {
				t.Fail("incomplete", "Messages: %q %q has form %d %q, want %q", ctx, id, f, tr[f], forms[f])
			}
		}
		for f, s := range tr {
			if s != "" && forms[f] == "" {
				t.Fail("incomplete", "Messages: %q %q has an unknown form %d %q", ctx, id, f, s)
			}
		}
		t.Eval(1)
	}
	n := 0
	switch x := cat.(type) {
	case *catalog.GettextCatalog:
		m := x.Messages()
		for ctx, ids := range c.Live {
			for id := range ids {
				n++
				msg := m[ctx][id]
				if msg == nil {
					t.Fail("incomplete", "Messages has no %q %q", ctx, id)
				}
				same(ctx, id, msg.Translations())
				same(ctx, id, msg.Clone().Translations())
			}
		}
		for _, ids := range m {
			n -= len(ids)
		}
	case catalog.JSONCatalog:
		m := x.Messages()
		for ctx, ids := range c.Live {
			for id := range ids {
				n++
				key := id
				if ctx != "" {
					key += "_" + ctx
				}
				msg := m[key]
				if msg == nil || msg.Context != ctx {
					t.Fail("incomplete", "Messages has no %q %q: %v", ctx, id, msg)
				}
				tr := map[int]string{}
				for k, s := range msg.Translations {
					tr[int(k)] = s
				}
				same(ctx, id, tr)
			}
		}
		n -= len(m)
	}
	if n != 0 {
		t.Fail("incomplete", "Messages has %d more entries than the catalog", -n)
	}
}

// spoilSome changes one thing of the messages that were handed out.
func spoilSome(t *fw.T, cat catalog.Catalog) string {
	switch x := cat.(type) {
	case *catalog.GettextCatalog:
		m := x.Messages()
		ctxs := fw.SortedKeys(m)
		if len(ctxs) == 0 {
			return "nothing"
		}
		ctx := fw.Pick(t, ctxs)
		ids := fw.SortedKeys(m[ctx])
		if len(ids) == 0 {
			return "nothing"
		}
		id := fw.Pick(t, ids)
		switch t.IntN(6) {
		case 0:
			delete(m, ctx)
			return fmt.Sprintf("delete context %q", ctx)
		case 1:
			delete(m[ctx], id)
			return fmt.Sprintf("delete %q %q", ctx, id)
		case 2:
			tr := m[ctx][id].Translations()
			tr[t.IntN(3)] = "changed"
			return fmt.Sprintf("change the translations of %q %q", ctx, id)
		case 3:
			tr := m[ctx][id].Translations()
			clear(tr)
			return fmt.Sprintf("clear the translations of %q %q", ctx, id)
		case 4:
			other := fw.Pick(t, ids)
			*m[ctx][id] = *m[ctx][other]
			return fmt.Sprintf("overwrite %q %q with %q", ctx, id, other)
		}
		m[ctx]["new"] = m[ctx][id]
		m["new"] = m[ctx]
		m[ctx][id].Clone().Translations()[0] = "changed"
		return fmt.Sprintf("add messages to %q", ctx)
	case catalog.JSONCatalog:
		m := x.Messages()
		keys := fw.SortedKeys(m)
		if len(keys) == 0 {
			return "nothing"
		}
		return spoilJSON(t, m, fw.Pick(t, keys))
	}
	return ""
}

func spoilJSON(t *fw.T, m catalog.JSONMessages, key string) string {
	msg := m[key]
	if msg == nil {
		return fmt.Sprintf("leave %q", key)
	}
	if msg.Translations == nil {
		msg.Translations = map[cldrplural.Category]string{}
	}
	switch t.IntN(7) {
	case 0:
		delete(m, key)
		return fmt.Sprintf("delete %q", key)
	case 1:
		msg.Translations[cldrplural.Category(t.IntN(6))] = "changed"
		return fmt.Sprintf("change the translations of %q", key)
	case 2:
		clear(msg.Translations)
		return fmt.Sprintf("clear the translations of %q", key)
	case 3:
		msg.Context, msg.Comment = "changed", "changed"
		return fmt.Sprintf("change context and comment of %q", key)
	case 4:
		*msg = catalog.JSONMessage{}
		return fmt.Sprintf("overwrite %q", key)
	case 5:
		m["new"] = msg
		m[key] = nil
		return fmt.Sprintf("rename %q", key)
	}
	catalog.ApplyPluralCategoriesToJSONMessage(language.Arabic, msg)
	msg.Translations[cldrplural.Zero] = "changed"
	return fmt.Sprintf("apply other categories to %q", key)
}

// readCatalog reads, looks up or encodes.
func readCatalog(t *fw.T, w *world, c *wcat, cat catalog.Catalog) string {
	switch t.IntN(3) {
	case 0:
		call := w.randCall(t, true)
		num := randNum(t, true, true)
		_, _ = cat.Lookup(call.Ctx, call.ID)
		_, _ = cat.LookupPlural(call.Ctx, call.ID, num.V)
		return "look up " + call.ID
	case 1:
		if j, ok := cat.(catalog.JSONCatalog); ok {
			_ = catalog.NewJSONEncoder(&bytes.Buffer{}).Encode(j)
			_, _ = json.MarshalIndent(j, "", " ")
			return "encode"
		}
	}
	return "read " + fmt.Sprint(len(messagesOf(cat)))
}

func c02catalog(t *fw.T) {
	w := &world{Cats: map[language.Tag]map[string]*wcat{}, ErrCtx: "errors", Contexts: []string{"", "errors", "ctx", "日"}, IDs: worldIDs[:8+t.IntN(10)]}
	tag := randWorldTag(t)
	c := w.fillCatalog(t, tag, "d", worldOpts{Kinds: worldAllKinds, Dead: t.Chance(3), Verbs: t.Chance(2), Plurals: t.Chance(2)})
	w.Langs, w.Domains = []language.Tag{tag}, []string{"d"}
	w.Cats[tag] = map[string]*wcat{"d": c}
	t.Note("%s catalog of %s: %q", c.Kind, tag, c.Data)
	cat := c.Real
	t.Count("catalogs "+c.Ext[1:], 1)
	steps := []string{}
	if t.Chance(2) { // the input is overwritten after decoding
		data := slices.Clone(c.Data)
		kind := strings.TrimSuffix(strings.TrimSuffix(c.Kind, "-flag"), "-nohdr")
		var err error
		if cat, err = decoderOf(kind).Decode(tag, "d", data); err != nil {
			t.Fail("decode", "%v", err)
		}
		if !bytes.Equal(data, c.Data) {
			t.Fail("input-changed", "Decode changed the bytes it was given")
		}
		for i := range data {
			data[i] = 'x'
		}
		steps = append(steps, "overwrite the decoded bytes")
		t.Count("overwritten inputs", 1)
	}
	t.Note("steps %q", &steps)
	checkComplete(t, c, cat)
	base := dumpCatalog(cat)
	text := ""
	encode := func() string {
		j, ok := cat.(catalog.JSONCatalog)
		if !ok {
			return ""
		}
		var b bytes.Buffer
		if err := catalog.NewJSONEncoder(&b).Encode(j); err != nil {
			t.Fail("encode", "%v", err)
		}
		m, err := json.Marshal(j)
		if err != nil {
			t.Fail("encode", "%v", err)
		}
		return b.String() + string(m)
	}
	text = encode()
	for i := 2 + t.IntN(6); i > 0; i-- {
		step := ""
		switch t.IntN(4) {
		case 0:
			messagesOf(cat)
			step = "overwrite all messages"
		case 1, 2:
			step = spoilSome(t, cat)
			t.Count("changes of messages", 1)
		default:
			step = readCatalog(t, w, c, cat)
		}
		steps = append(steps, step)
		t.Eval(1)
		if got := dumpCatalog(cat); got != base {
			t.Fail("content-changed", "after %q the catalog contains\n%s\nbefore\n%s", step, got, base)
		}
		if got := encode(); got != text {
			t.Fail("encoding-changed", "after %q the catalog is encoded as\n%s\nbefore\n%s", step, got, text)
		}
		for ctx, ids := range c.Live {
			for id, forms := range ids {
				f := 0
				if c.JSON {
					f = int(categoryByName["Other"])
				}
				if s, err := cat.Lookup(ctx, id); (err == nil) != (forms[f] != "") || err == nil && s != forms[f] {
					t.Fail("lookup-changed", "after %q Lookup(%q, %q) = %q, %v; want %q", step, ctx, id, s, err, forms[f])
				}
			}
		}
		t.Distinct(c.Kind, step, i)
	}
	checkComplete(t, c, cat)
	t.Sample("%s catalog of %s: %q", c.Kind, tag, steps)
}

func cloneJSON(m catalog.JSONMessages) catalog.JSONMessages {
	out := catalog.JSONMessages{}
	for k, msg := range m {
		cp := *msg
		cp.Translations = maps.Clone(msg.Translations)
		out[k] = &cp
	}
	return out
}

func dumpJSON(m catalog.JSONMessages) string {
	var b strings.Builder
	for _, k := range fw.SortedKeys(m) {
		if m[k] == nil {
			fmt.Fprintf(&b, "%q nil\n", k)
			continue
		}
		fmt.Fprintf(&b, "%q %q %q %q\n", k, m[k].Context, m[k].Comment, m[k].Translations)
	}
	return b.String()
}

func c02json(t *fw.T) {
	tags := []language.Tag{randWorldTag(t), randWorldTag(t)}
	set, _ := cldrFor(tags[0])
	ms := genJSON(t, set, 1+t.IntN(10))
	if len(ms) == 0 {
		return
	}
	in := catalog.JSONMessages{}
	for _, m := range ms {
		in[m.Key] = m.message()
	}
	if t.Chance(3) && len(ms) > 1 { // two keys with one message
		a, b := ms[0], ms[1]
		if a.Ctx == b.Ctx {
			in[b.Key] = in[a.Key]
		}
	}
	before := dumpJSON(in)
	snap := cloneJSON(in)
	t.Note("messages\n%s", before)
	// both catalogs are made from the same messages, for languages with different categories
	var cats, want []catalog.JSONCatalog
	for _, tag := range tags {
		c, err := catalog.NewJSONCatalogWithMessages(tag, "d", in)
		if err != nil {
			t.Fail("create", "NewJSONCatalogWithMessages(%s): %v", tag, err)
		}
		if got := dumpJSON(in); got != before {
			t.Fail("input-changed", "NewJSONCatalogWithMessages changed the messages it was given:\n%s\nwant\n%s", got, before)
		}
		ref, err := catalog.NewJSONCatalogWithMessages(tag, "d", cloneJSON(snap))
		if err != nil {
			t.Fail("create", "NewJSONCatalogWithMessages(%s): %v", tag, err)
		}
		cats, want = append(cats, c), append(want, ref)
	}
	var base []string
	for i, c := range cats {
		base = append(base, dumpCatalog(c))
		if w := dumpCatalog(want[i]); w != base[i] {
			t.Fail("shared", "catalogs made from the same messages differ:\n%s\nwant\n%s", base[i], w)
		}
	}
	steps := []string{}
	t.Note("steps %q", &steps)
	keys := fw.SortedKeys(in)
	for i := 1 + t.IntN(6); i > 0; i-- {
		step := ""
		k := t.IntN(2)
		switch t.IntN(4) {
		default:
			if key := fw.Pick(t, keys); in[key] != nil {
				step = "input: " + spoilJSON(t, in, key)
			}
		case 0:
			step = "handed out: " + spoilSome(t, cats[k])
		case 1: // a message handed out by one is added to a map for another
			m := cats[k].Messages()
			c, err := catalog.NewJSONCatalogWithMessages(tags[1-k], "d", m)
			if err != nil {
				t.Fail("create", "a catalog cannot be made from the messages of another one: %v", err)
			}
			cats = append(cats, c)
			base = append(base, dumpCatalog(c))
			tags = append(tags, tags[1-k])
			step = "a catalog from the messages of another one, overwritten afterwards"
			for _, key := range fw.SortedKeys(m) {
				spoilJSON(t, m, key)
			}
		}
		steps = append(steps, step)
		for j, c := range cats {
			t.Eval(1)
			if got := dumpCatalog(c); got != base[j] {
				t.Fail("content-changed", "after %q catalog %d (%s) contains\n%s\nbefore\n%s", step, j, tags[j], got, base[j])
			}
		}
		t.Distinct("json", step, len(in))
		t.Count("changes of messages passed in", 1)
	}
	// clones
	for _, key := range fw.SortedKeys(snap) {
		m := snap[key]
		d := dumpJSON(snap)
		cl := m.Clone()
		if dumpJSON(catalog.JSONMessages{"x": cl}) != dumpJSON(catalog.JSONMessages{"x": m}) {
			t.Fail("clone", "Clone of %q is %q", *m, *cl)
		}
		if cl.Translations == nil {
			cl.Translations = map[cldrplural.Category]string{}
		}
		cl.Translations[cldrplural.Few] = "changed"
		cl.Translations[cldrplural.Other] = "changed"
		cl.Comment = "changed"
		if dumpJSON(snap) != d {
			t.Fail("clone", "changing a clone changed %q", key)
		}
	}
	t.Sample("catalogs of %s and %s from %d messages: %q", tags[0], tags[1], len(snap), steps)
}

func c02bundle(t *fw.T) {
	w := newWorld(t, worldOpts{Dead: t.Chance(3), Print: -1, Callback: 0, Spoil: t.Chance(2)})
	var locs []*wloc
	for i := 1 + t.IntN(4); i > 0; i-- {
		locs = append(locs, w.localizer(t))
	}
	langs := slices.Clone(w.Bundle.SupportedLanguages())
	domains := slices.Clone(w.Bundle.Domains())
	if written(w.opts) {
		t.Fail("arguments-changed", "NewBundle writes behind its options")
	}
	for _, a := range w.args {
		if written(a) {
			t.Fail("arguments-changed", "WithLanguage or NewBundle writes behind the languages %v", a)
		}
	}
	if !slices.Equal(langs, w.Langs) {
		t.Fail("languages", "SupportedLanguages: %v, want %v", langs, w.Langs)
	}
	calls := make([]wcall, 12)
	for i := range calls {
		calls[i] = w.randCall(t, true)
	}
	own := map[*wloc][]string{}
	for _, x := range locs {
		own[x] = slices.Clone(x.l.Domains())
		want := liveDomains(w.Cats[x.Tag])
		if x.Tag == w.Source {
			want = nil
		}
		if !slices.Equal(own[x], want) {
			t.Fail("localizer-domains", "%s: Domains %q, want %q", x.Desc, own[x], want)
		}
	}
	steps := []string{}
	t.Note("steps %q", &steps)
	for i := 3 + t.IntN(5); i > 0; i-- {
		step := ""
		x := fw.Pick(t, locs)
		switch k := t.IntN(9); k {
		case 0:
			step = "Domains of the bundle"
			spoil(w.Bundle.Domains())
		case 1:
			step = "SupportedLanguages"
			spoil(w.Bundle.SupportedLanguages())
		case 2:
			step = "Domains of a localizer"
			spoil(x.l.Domains())
		case 3:
			step = "option list"
			for i := range w.opts {
				w.opts[i] = nil
			}
		case 4:
			step = "languages passed to options"
			for _, a := range w.args {
				spoil(a)
			}
		case 5, 6:
			if len(w.fss) == 0 {
				continue
			}
			step = "files"
			for _, f := range w.fss {
				for _, name := range fw.SortedKeys(f) {
					for i := range f[name].Data {
						f[name].Data[i] = '#'
					}
					if k == 6 {
						delete(f, name)
					}
				}
			}
			t.Count("changed files", 1)
		case 7:
			step = "messages of a catalog"
			for _, l := range w.Langs {
				for _, d := range liveDomains(w.Cats[l]) {
					messagesOf(w.Cats[l][d].Real)
				}
			}
		case 8:
			step = "preferences of a new localizer"
			a := make([]any, 2, 6)
			a[0], a[1] = "-", w.Source
			if len(w.Langs) > 0 {
				a[0] = fw.Pick(t, w.Langs)
			}
			keep := slices.Clone(a)
			y := &wloc{Def: w.Default, l: spreak.NewLocalizer(w.Bundle, a...), kl: spreak.NewKeyLocalizer(w.Bundle, a...), Desc: fmt.Sprintf("localizer for %v", a)}
			y.Tag, y.Found = w.match(a)
			if !slices.Equal(a, keep) || a[:6][2] != nil {
				t.Fail("arguments-changed", "NewLocalizer changed its arguments %v to %v", keep, a[:6])
			}
			spoil(a)
			own[y] = slices.Clone(y.l.Domains())
			locs = append(locs, y)
		}
		steps = append(steps, step)
		t.Count("changes of "+step, 1)
		if got := w.Bundle.SupportedLanguages(); !slices.Equal(got, langs) {
			t.Fail("languages-changed", "after a change of %s SupportedLanguages returns %v, before %v", step, got, langs)
		}
		if got := w.Bundle.Domains(); !slices.Equal(got, domains) {
			t.Fail("domains-changed", "after a change of %s Domains returns %q, before %q", step, got, domains)
		}
		for _, l := range langs {
			if !w.Bundle.IsLanguageSupported(l) {
				t.Fail("languages-changed", "after a change of %s %s is no longer supported", step, l)
			}
			if x := spreak.NewLocalizer(w.Bundle, l); !x.HasLocale() {
				t.Fail("languages-changed", "after a change of %s there is no localizer for %s", step, l)
			}
		}
		for _, x := range locs {
			if got := x.l.Domains(); !slices.Equal(got, own[x]) {
				t.Fail("domains-changed", "after a change of %s %s has the domains %q, before %q", step, x.Desc, got, own[x])
			}
			for _, d := range own[x] {
				if !x.l.HasDomain(d) {
					t.Fail("domains-changed", "after a change of %s %s does not have domain %q", step, x.Desc, d)
				}
			}
			for _, c := range calls {
				exp := w.expect(x, c)
				if !exp.Known {
					continue
				}
				t.Eval(1)
				// spare capacity shows writes behind the end
				vars := append(make([]any, 0, len(c.Vars)+3), c.Vars...)
				c.Vars = vars
				if got := c.invoke(x); got != exp.Final {
					t.Fail("lookup-changed", "after a change of %s %s: %s returns %q, want %q", step, x.Desc, c, got, exp.Final)
				}
				for _, v := range vars[len(vars):cap(vars)] {
					if v != nil {
						t.Fail("arguments-changed", "%s writes %v behind the arguments", c, v)
					}
				}
			}
		}
		t.Distinct("bundle", step, i, len(langs), len(domains))
	}
	t.Sample("%d languages, changes of %q", len(langs), steps)
}

func dumpLocale(d *humanize.LocaleData) string {
	if d.Format == nil {
		return fmt.Sprintf("%s nil", d.Lang)
	}
	return fmt.Sprintf("%s %+v", d.Lang, *d.Format)
}

func c02humanize(t *fw.T) {
	var names []string
	for i := 1 + t.IntN(4); i > 0; i-- {
		if k := fw.Pick(t, localeKeys); !slices.Contains(names, k) && k != "pt" && k != "ptBR" {
			names = append(names, k)
		}
	}
	if len(names) == 0 {
		return
	}
	var data []*humanize.LocaleData
	var before []string
	files := map[string]fstest.MapFS{}
	formats := map[string]humanize.FormatData{}
	for _, k := range names {
		d := localePackages[k]()
		ref := localePackages[k]()
		po, _ := readFileOf(d, "django.po")
		files[k] = fstest.MapFS{"django.po": {Data: po}}
		d.Fs = files[k]
		switch t.IntN(5) {
		case 0:
			d.Format, ref.Format = nil, nil
		case 1: // some fields are missing and get default values
			for _, f := range []*humanize.FormatData{d.Format, ref.Format} {
				if f != nil {
					f.DateFormat, f.ShortDatetimeFormat = "", ""
				}
			}
		case 2: // two languages with one format
			d.Format = &humanize.FormatData{DateFormat: "Y j", TimeFormat: "i"}
			ref.Format = &humanize.FormatData{DateFormat: "Y j", TimeFormat: "i"}
			if len(data) > 0 && t.Chance(2) {
				d.Format = data[0].Format
				if d.Format == nil {
					ref.Format = nil
				} else {
					cp := *d.Format
					ref.Format = &cp
				}
			}
		}
		formats[k] = withDefaults(ref.Format)
		data = append(data, d)
		before = append(before, dumpLocale(d))
	}
	args := append(make([]*humanize.LocaleData, 0, len(data)+2), data...)
	var opts []humanize.Option
	if cut := t.IntN(len(data) + 1); len(data) < 2 || t.Chance(3) {
		opts = append(opts, humanize.WithLocale(args...))
	} else { // several options; there is room behind the arguments of the first one
		args = roomy(data[:cut])
		opts = append(opts, humanize.WithLocale(args...), humanize.WithLocale(roomy(data[cut:])...))
	}
	given := slices.Clone(args)
	opts = roomy(opts)
	made := false
	mk := func() *humanize.Collection {
		c, err := humanize.New(opts...)
		if err != nil {
			t.Fail("create", "humanize.New: %v", err)
		}
		if !made && (!slices.Equal(args, given) || written(args) || written(opts)) {
			t.Fail("arguments-changed", "humanize.New or an option changed the list of its arguments")
		}
		made = true
		for i, d := range data {
			if got := dumpLocale(d); got != before[i] {
				t.Fail("locale-changed", "humanize.New changed the data it was given: %s, before %s", got, before[i])
			}
		}
		return c
	}
	colls := []*humanize.Collection{mk()}
	if t.Chance(2) {
		colls = append(colls, mk())
	}
	var hs []*human
	for i, c := range colls {
		for _, k := range names {
			tag := language.MustParse(localeLanguages[k])
			hs = append(hs, &human{Name: k, Desc: fmt.Sprintf("%s in collection %d", k, i), Tag: tag, H: c.CreateHumanizer(tag), cat: catOf(k), pr: message.NewPrinter(tag), en: message.NewPrinter(language.English), F: formats[k]})
		}
	}
	steps := []string{}
	t.Note("locales %q, steps %q", names, &steps)
	verify := func(step string) {
		if t.Chance(2) { // a new humanizer of the collection
			i := t.IntN(len(hs))
			h := *hs[i]
			h.H = colls[i/len(names)].CreateHumanizer(h.Tag)
			hs[i] = &h
		}
		for _, h := range hs {
			for i := 0; i < 4; i++ {
				c := randHumanCall(t, time.Now())
				t.Eval(1)
				if got, want := c.Got(h), c.Want(h); got != want {
					t.Fail("humanize-changed", "after %q %s: %s returns %q, want %q", step, h.Desc, c.Name, got, want)
				}
			}
			for _, f := range predefinedNames {
				tm := randTime(t)
				if got, want := h.H.FormatTime(tm, f), h.formatTime(tm, f); got != want {
					t.Fail("format-changed", "after %q %s: FormatTime(%s, %s) returns %q, want %q", step, h.Desc, tm, f, got, want)
				}
			}
		}
	}
	verify("creation")
	for i := 1 + t.IntN(4); i > 0; i-- {
		step := ""
		k := t.IntN(len(data))
		switch t.IntN(7) {
		case 0:
			step = "overwrite the format"
			if data[k].Format != nil {
				*data[k].Format = humanize.FormatData{DateFormat: "changed", TimeFormat: "changed", DateTimeFormat: "changed", YearMonthFormat: "changed", MonthDayFormat: "changed", ShortDateFormat: "changed", ShortDatetimeFormat: "changed"}
			}
		case 1:
			step = "replace the format"
			data[k].Format = &humanize.FormatData{DateFormat: "replaced"}
		case 2:
			step = "change the language"
			data[k].Lang = language.Und
		case 3:
			step = "remove the file system"
			data[k].Fs = nil
		case 4:
			step = "overwrite the files"
			f := files[names[k]]["django.po"]
			for i := range f.Data {
				f.Data[i] = '#'
			}
		case 5:
			step = "overwrite the list of locales"
			clear(args[:cap(args)])
		case 6:
			step = "options of a call"
			_, opts, desc := randSinceOpts(t)
			list := append(make([]humanize.TimeOption, 0, len(opts)+4), opts...)
			h := fw.Pick(t, hs)
			a := time.Now()
			for _, f := range []func(){
				func() { h.H.TimeSinceFrom(a, a.Add(time.Hour), list...) }, func() { h.H.TimeUntilFrom(a, a.Add(time.Hour), list...) },
				func() { h.H.TimeSince(a, list...) }, func() { h.H.TimeUntil(a, list...) },
			} {
				f()
				for _, o := range list[len(list):cap(list)] {
					if o != nil {
						t.Fail("arguments-changed", "a call with the options%s writes behind its options", desc)
					}
				}
			}
		}
		steps = append(steps, step)
		t.Count("humanize: "+step, 1)
		verify(step)
		t.Distinct("humanize", names, step, i)
	}
	t.Sample("locales %q: %q", names, steps)
}

func readFileOf(d *humanize.LocaleData, name string) ([]byte, error) {
	f, err := d.Fs.Open(name)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	var b bytes.Buffer
	_, err = b.ReadFrom(f)
	return b.Bytes(), err
}

// roomy returns a copy of a list with room behind its end.
func roomy[E any](xs []E) []E {
	return append(make([]E, 0, len(xs)+4), xs...)
}

// written reports whether something was put behind the end of a list.
func written[E any](xs []E) bool {
	for i := range xs[len(xs):cap(xs)] {
		if !reflect.ValueOf(&xs[:cap(xs)][len(xs)+i]).Elem().IsZero() {
			return true
		}
	}
	return false
}

// dumpPO renders a file; the order of references and flags is left out.
func dumpPO(f *po.File) string {
	var b strings.Builder
	comment := func(c *po.Comment) {
		if c == nil {
			b.WriteString("  no comment\n")
			return
		}
		var refs []string
		for _, r := range c.References {
			refs = append(refs, fmt.Sprintf("%q", fmt.Sprintf("%+v", *r)))
		}
		sort.Strings(refs)
		flags := slices.Clone(c.Flags)
		sort.Strings(flags)
		fmt.Fprintf(&b, "  %q %q %q %q %q %q\n", c.Translator, c.Extracted, refs, flags, c.PrevMsgContext, c.PrevMsgID)
	}
	if f.Header == nil {
		b.WriteString("no header\n")
	} else {
		h := *f.Header
		comment(h.Comment)
		h.Comment = nil
		fmt.Fprintf(&b, "%+v\n", h)
	}
	for _, ctx := range fw.SortedKeys(f.Messages) {
		fmt.Fprintf(&b, "context %q\n", ctx)
		for _, id := range fw.SortedKeys(f.Messages[ctx]) {
			m := f.Messages[ctx][id]
			fmt.Fprintf(&b, "%q: %q %q %q %q\n", id, m.Context, m.ID, m.IDPlural, m.Str)
			comment(m.Comment)
		}
	}
	return b.String()
}

func c02po(t *fw.T) {
	c := model.Gen(t.Rand, model.Opts{Level: t.IntN(3), Entries: 1 + t.IntN(10), Forms: 1 + t.IntN(3), Comments: true})
	genHeader(t, c, t.IntN(3))
	text := c.PO(t.Rand, model.RandLayout(t.Rand))
	data := []byte(text)
	t.Note("%s", text)
	f, err := po.Parse(data)
	if err != nil {
		t.Fail("parse", "%v", err)
	}
	if string(data) != text {
		t.Fail("input-changed", "Parse changed the bytes it was given")
	}
	base := dumpPO(f)
	for i := range data {
		data[i] = 'x'
	}
	steps := []string{}
	t.Note("steps %q", &steps)
	after := func(step string) {
		steps = append(steps, step)
		t.Eval(1)
		t.Count("po: "+step, 1)
		if got := dumpPO(f); got != base {
			t.Fail("file-changed", "after %q the file is\n%s\nbefore\n%s", step, got, base)
		}
		t.Distinct("po", step, len(f.Messages), c.HasHeader, len(base))
	}
	after("overwrite the parsed bytes")
	for i := 1 + t.IntN(5); i > 0; i-- {
		switch t.IntN(6) {
		case 0, 1:
			var b bytes.Buffer
			enc := po.NewEncoder(&b)
			if t.Chance(2) {
				enc.SetWrapWidth(t.IntN(100) - 1)
			}
			if t.Chance(3) {
				enc.SetWriteReferences(false)
			}
			if t.Chance(3) {
				enc.SetWriteHeader(false)
			}
			if t.Chance(3) {
				enc.SetSortFunction(po.DefaultSortFunction)
			}
			if err := enc.Encode(f); err != nil {
				t.Fail("encode", "%v", err)
			}
			after("Encode")
		case 2:
			m1, err := po.Marshal(f)
			if err != nil {
				t.Fail("encode", "%v", err)
			}
			keep := string(m1)
			after("Marshal")
			spoil(m1)
			m2, _ := po.Marshal(f)
			if string(m2) != keep {
				t.Fail("file-changed", "overwriting the result of Marshal changes the next result")
			}
			after("overwrite the result of Marshal")
		case 3:
			_ = f.String()
			for ctx, ids := range f.Messages {
				for id := range ids {
					f.GetMessage(ctx, id)
				}
			}
			f.GetMessage("not", "there")
			after("String and GetMessage")
		case 4:
			if f.Header != nil {
				_ = f.Header.Get("Language")
				_ = f.Header.Get("X-Unknown")
			}
			after("Header.Get")
		case 5: // merging reads the other message
			other := po.NewFile()
			for _, ctx := range fw.SortedKeys(f.Messages) {
				for _, id := range fw.SortedKeys(f.Messages[ctx]) {
					m := po.NewMessage()
					m.Context, m.ID = ctx, id
					if t.Chance(2) {
						m.Comment = nil
					} else {
						m.Comment.Translator = "mine"
						m.Comment.AddFlag("mine")
						m.AddReference(&po.Reference{Path: "mine.go", Line: 1})
					}
					other.AddMessage(m)
					m.Merge(f.Messages[ctx][id])
				}
			}
			after("Merge into another message")
		}
	}
	t.Sample("%d contexts: %q", len(f.Messages), steps)
}

func c02rules(t *fw.T) {
	conds := map[cldrplural.Category]string{cldrplural.Other: ruleSamples}
	for _, c := range []cldrplural.Category{cldrplural.Zero, cldrplural.One, cldrplural.Two, cldrplural.Few, cldrplural.Many} {
		if t.Chance(2) {
			conds[c] = randCond(t) + ruleSamples
		}
	}
	keep := maps.Clone(conds)
	rs, err := cldrplural.ParseRules(conds)
	if err != nil {
		t.Fail("parse", "ParseRules(%q): %v", conds, err)
	}
	if !maps.Equal(conds, keep) {
		t.Fail("input-changed", "ParseRules changed its argument to %q, before %q", conds, keep)
	}
	texts := map[string]string{}
	for c, s := range keep {
		texts[c.String()] = s
	}
	nums := []string{}
	want := map[string]cldrplural.Category{}
	for i := 0; i < 20; i++ {
		s := decimalText(t)
		v, err := rs.Evaluate(s)
		if err != nil {
			continue
		}
		want[s] = v
		nums = append(nums, s)
	}
	for c := range conds {
		conds[c] = "n != n"
	}
	if t.Chance(2) {
		clear(conds)
	}
	for _, s := range nums {
		o := cldrplural.MustNewOperands(s)
		before := *o
		if v := rs.FormFunc(o); v != want[s] {
			t.Fail("rules-changed", "after a change of the parsed map %s has category %s, before %s (%q)", s, v, want[s], texts)
		}
		if *o != before {
			t.Fail("operands-changed", "the rules changed the operands of %s to %+v", s, *o)
		}
		t.Eval(1)
		t.Distinct("rules", s, want[s])
	}
	t.Count("rule maps changed", 1)
	t.Sample("rules %q", texts)
}

func init() {
	register(&fw.Check{
		ID: "C02",
		Rule: "random histories of reading, changing what was handed out or handed in, and reading again: messages, translations and clones of PO, MO and JSON catalogs; message maps and bytes catalogs are made from; lists, options, arguments and files of bundles; locale data, formats, files and options of humanizers; PO files; rule maps. " +
			"After every step the complete content (dump, lookups, encoding) equals the one before and the model",
		Assumptions: []string{"values that are documented to be shared (catalogs returned by a loader, messages added to a po.File) are not changed"},
		Need:        []string{"catalogs po", "catalogs mo", "catalogs json", "overwritten inputs", "changes of messages", "changes of messages passed in", "changed files", "changes of Domains of the bundle", "changes of SupportedLanguages", "changes of Domains of a localizer", "changes of languages passed to options", "humanize: overwrite the format", "humanize: overwrite the files", "humanize: options of a call", "po: Encode", "po: Merge into another message", "rule maps changed"},
		MinNonTriv:  1500,
		Gens: []fw.Gen{
			{Name: "catalogs", Quick: 3000, Thor: 120000, Run: c02catalog},
			{Name: "json", Quick: 2500, Thor: 100000, Run: c02json},
			{Name: "bundles", Quick: 1500, Thor: 60000, Run: c02bundle},
			{Name: "humanize", Quick: 250, Thor: 8000, Run: func(t *fw.T) {
				inBubble(time.Duration(t.Int64N(int64(25*365*24*time.Hour))), func() { c02humanize(t) })
			}},
			{Name: "po", Quick: 1500, Thor: 60000, Run: c02po},
			{Name: "rules", Quick: 400, Thor: 20000, Run: c02rules},
		},
	})
}
