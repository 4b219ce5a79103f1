package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"maps"
	"math"
	"slices"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"

	"verifharness/fw"
	"verifharness/model"
	"verifharness/oracle"
)

// moCase is a catalog, its header and the rule its plural lookups have to follow.
type moCase struct {
	tag  language.Tag
	mc   *model.Catalog
	rule wcat // only E, Set
	cldr bool // decoders for CLDR rules
	n    int  // forms
}

func newMOCase(t *fw.T, level int) *moCase {
	x := &moCase{tag: randWorldTag(t)}
	entries := 1 + t.IntN(12)
	if t.Chance(30) {
		entries = 200 + t.IntN(400)
	}
	forms := 1 + t.IntN(6)
	x.mc = model.Gen(t.Rand, model.Opts{Level: level, Entries: entries, Forms: forms, Empty: true, NoFuzzy: true, Comments: t.Chance(3)})
	for _, e := range x.mc.Entries {
		if e.HasPlural && t.Chance(12) { // the context separator is only one before the plural id
			e.Plural += "\x04" + e.ID
		}
		if e.Ctx != "" && t.Chance(12) { // the context ends at the first separator
			e.ID += "\x04" + fw.Pick(t, []string{"", "x", e.ID, e.Ctx})
		}
	}
	cset, has := cldrFor(x.tag)
	x.rule.Set = cset
	x.n = len(cset.Cats)
	if !t.Chance(4) {
		h := fw.Pick(t, allPluralForms())
		x.mc.HasHeader = true
		kv := []model.KV{{K: "Project-Id-Version", V: "x"}, {K: fw.Pick(t, []string{"Plural-Forms", "Plural-Forms", "plural-forms"}), V: h}, {K: "Content-Type", V: "text/plain; charset=UTF-8"}}
		flag := t.Chance(4)
		if flag {
			kv = append(kv, model.KV{K: "X-spreak-use-CLDR", V: fw.Pick(t, []string{"true", "TRUE"})})
		}
		t.Shuffle(len(kv), func(i, j int) { kv[i], kv[j] = kv[j], kv[i] })
		x.mc.Header = kv
		x.mc.HeaderOpen = t.Chance(4)
		x.cldr = t.Chance(4)
		if !(flag || x.cldr) || !has {
			x.n, x.rule.E = oracle.MustPlural(h)
			x.rule.Set = nil
		}
	} else if t.Chance(2) {
		x.mc.HasHeader = true
		x.mc.Header = []model.KV{{K: "Content-Type", V: "text/plain; charset=UTF-8"}}
		x.cldr = t.Chance(2)
	} else {
		x.cldr = t.Chance(2)
	}
	return x
}

func (x *moCase) decoders() (po, mo catalog.Decoder) {
	if x.cldr {
		return catalog.NewPoCLDRDecoder(), catalog.NewMoCLDRDecoder()
	}
	return catalog.NewPoDecoder(), catalog.NewMoDecoder()
}

func decodeEither(t *fw.T, d catalog.Decoder, tag language.Tag, domain string, data []byte) (catalog.Catalog, error) {
	if d2, ok := d.(catalog.DecoderV2); ok {
		switch t.IntN(3) {
		case 0:
			return d2.DecodeReader(tag, domain, bytes.NewReader(data))
		case 1:
			return d2.DecodeReader(tag, domain, io.MultiReader(bytes.NewReader(data))) // not seekable
		}
	}
	return d.Decode(tag, domain, slices.Clone(data))
}

// probes are keys which may or may not exist.
func probes(t *fw.T, mc *model.Catalog) [][2]string {
	var ps [][2]string
	ctxs := []string{"", "ctx", "errors", "none"}
	es := mc.Entries
	for k := 0; k < 10 && len(es) > 0; k++ {
		e := fw.Pick(t, es)
		ctxs = append(ctxs, e.Ctx)
		ps = append(ps, [2]string{e.Ctx, e.ID}, [2]string{fw.Pick(t, ctxs), e.ID}, [2]string{e.Ctx, e.Plural}, [2]string{"", e.Ctx + "\x04" + e.ID}, [2]string{e.Ctx, e.ID + "\x00" + e.Plural}, [2]string{e.Ctx, e.ID + " "}, [2]string{e.ID, e.Ctx}, [2]string{e.Ctx, fw.Pick(t, es).ID}, [2]string{e.Ctx, e.Str[0]}, [2]string{e.Ctx, strings.TrimSpace(e.ID)})
	}
	return append(ps, [2]string{"", ""}, [2]string{"ctx", ""})
}

func c13exact(t *fw.T) {
	x := newMOCase(t, t.IntN(3))
	layout := model.RandMOLayout(t.Rand)
	pairs := x.mc.Pairs()
	data := model.MO(t.Rand, pairs, layout)
	t.Note("%s cldr decoder %v layout %+v\npairs %q", x.tag, x.cldr, layout, clipText(fmt.Sprintf("%q", pairs), 5000))
	_, d := x.decoders()
	cat, err := decodeEither(t, d, x.tag, "dom", data)
	if err != nil {
		t.Fail("rejected", "valid MO file rejected: %v", err)
	}
	g, ok := cat.(*catalog.GettextCatalog)
	if !ok {
		t.Fail("type", "decoder returns %T", cat)
	}
	if g.Language() != x.tag || g.Domain() != "dom" {
		t.Err("labels", "catalog is labelled %s %q", g.Language(), g.Domain())
	}
	want := map[string]map[string]*model.Entry{}
	for _, e := range x.mc.Entries {
		if want[e.Ctx] == nil {
			want[e.Ctx] = map[string]*model.Entry{}
		}
		want[e.Ctx][e.ID] = e
	}
	got := g.Messages()
	for ctx, ms := range got {
		for id, m := range ms {
			e := want[ctx][id]
			if e == nil {
				t.Fail("extra", "message ctx=%q id=%q is not in the file", ctx, id)
			}
			if tr := m.Translations(); !maps.Equal(tr, e.Str) {
				t.Fail("translations", "ctx=%q id=%q has %q, want %q", ctx, id, tr, e.Str)
			}
		}
	}
	for _, e := range x.mc.Entries {
		if got[e.Ctx][e.ID] == nil {
			t.Fail("lost", "message %s is not in the catalog", e)
		}
	}
	t.Eval(len(x.mc.Entries))
	plurals := 0
	for _, p := range probes(t, x.mc) {
		e := want[p[0]][p[1]]
		text := ""
		if e != nil {
			text = e.Str[0]
		}
		checkLookup(t, cat, p[0], p[1], nil, text)
		for k := 0; k < 4; k++ {
			n := randNum(t, x.rule.Set != nil, false)
			f, st := x.rule.form(n)
			if st != formOK {
				continue
			}
			text = ""
			if e != nil {
				text = e.Str[f]
			}
			if text != "" {
				plurals++
			}
			checkLookup(t, cat, p[0], p[1], n.V, text)
		}
	}
	t.Count("plural texts compared", plurals)
	t.Count(fmt.Sprintf("layout big=%v hash=%v", layout.Big, layout.Hash), 1)
	t.Distinct("exact", string(data))
	t.Sample("%s: %d messages, layout %+v, %d plural texts compared", x.tag, len(x.mc.Entries), layout, plurals)
}

// checkLookup performs a lookup which has to return text, or an error and the id if text is empty.
func checkLookup(t *fw.T, cat catalog.Catalog, ctx, id string, n any, text string) {
	var s string
	var err error
	if n == nil {
		s, err = cat.Lookup(ctx, id)
	} else {
		s, err = cat.LookupPlural(ctx, id, n)
	}
	t.Eval(1)
	switch {
	case text == "" && err == nil:
		t.Fail("found", "ctx=%q id=%q n=%v returns %q, there is no such translation", ctx, id, n, s)
	case text == "" && s != id:
		t.Fail("missing-text", "ctx=%q id=%q n=%v returns %q together with %v", ctx, id, n, s, err)
	case text != "" && (err != nil || s != text):
		t.Fail("lookup", "ctx=%q id=%q n=%v returns %q and %v, want %q", ctx, id, n, s, err, text)
	}
}

// errKind names what an error reports as missing.
func errKind(err error) string {
	var mc *catalog.ErrMissingContext
	var mi *catalog.ErrMissingMessageID
	var mt *catalog.ErrMissingTranslation
	switch {
	case err == nil:
		return "ok"
	case errors.As(err, &mc):
		return "context"
	case errors.As(err, &mi):
		return "id"
	case errors.As(err, &mt):
		return fmt.Sprintf("translation %d", mt.Idx)
	}
	return "other"
}

func c13equal(t *fw.T) {
	x := newMOCase(t, t.IntN(3))
	if len(x.mc.Entries) > 40 {
		x.mc.Entries = x.mc.Entries[:40]
	}
	withJSON := x.rule.Set != nil
	if withJSON { // keys must be unambiguous
		keys := map[string]bool{}
		es := x.mc.Entries[:0:0]
		for _, e := range x.mc.Entries {
			k := e.ID
			if e.Ctx != "" {
				k += "_" + e.Ctx
			}
			if !keys[k] {
				keys[k] = true
				es = append(es, e)
			}
		}
		x.mc.Entries = es
	}
	moData := model.MO(t.Rand, x.mc.Pairs(), model.RandMOLayout(t.Rand))
	poData := []byte(x.mc.PO(t.Rand, model.RandLayout(t.Rand)))
	t.Note("%s cldr decoder %v\n%s", x.tag, x.cldr, poData)
	dp, dm := x.decoders()
	type namedCat struct {
		name string
		cat  catalog.Catalog
	}
	cats := []namedCat{}
	load := func(name string, d catalog.Decoder, data []byte) {
		cat, err := decodeEither(t, d, x.tag, "dom", data)
		if err != nil {
			t.Fail("rejected", "the %s file is rejected: %v", name, err)
		}
		cats = append(cats, namedCat{name, cat})
	}
	load("PO", dp, poData)
	load("MO", dm, moData)
	if withJSON {
		file := map[string]any{}
		for _, e := range x.mc.Entries {
			m := map[string]string{"other": e.Str[0]}
			k := e.ID
			if e.HasPlural {
				m["other"] = ""
				for f, s := range e.Str {
					if f < len(x.rule.Set.Cats) {
						m[strings.ToLower(x.rule.Set.Cats[f])] = s
					}
				}
			}
			if e.Ctx != "" {
				m["context"] = e.Ctx
				k += "_" + e.Ctx
			}
			file[k] = m
		}
		data, _ := json.Marshal(file)
		load("JSON", catalog.NewJSONDecoder(), data)
	}
	// Bundles with the catalogs, the domain is the same in each
	var locs []*spreak.Localizer
	fallback := language.MustParse("sw-x-none")
	for _, c := range cats {
		opts := []spreak.BundleOption{
			spreak.WithDomainLoader("dom", loaderFunc(func(l language.Tag, d string) (catalog.Catalog, error) {
				if l == x.tag {
					return c.cat, nil
				}
				return nil, spreak.NewErrNotFound(l, "test", "domain %q", d)
			})),
			spreak.WithDefaultDomain("dom"), spreak.WithLanguage(x.tag), spreak.WithSourceLanguage(fallback),
		}
		b, err := spreak.NewBundle(opts...)
		if err != nil {
			t.Fail("bundle", "%s: %v", c.name, err)
		}
		locs = append(locs, spreak.NewLocalizer(b, x.tag))
	}

	found := 0
	compare := func(ctx, id, plural string, n any, json bool) {
		var texts, kinds, local []string
		for i, c := range cats {
			if c.name == "JSON" && !json {
				continue
			}
			var s string
			var err error
			if n == nil {
				s, err = c.cat.Lookup(ctx, id)
				local = append(local, locs[i].PGet(ctx, id))
			} else {
				s, err = c.cat.LookupPlural(ctx, id, n)
				local = append(local, locs[i].NPGet(ctx, id, plural, n))
			}
			kind := errKind(err)
			if json && strings.HasPrefix(kind, "translation") {
				kind = "translation"
			}
			texts, kinds = append(texts, s), append(kinds, kind)
		}
		t.Eval(1)
		if kinds[0] == "ok" {
			found++
		}
		for i := range texts {
			if texts[i] != texts[0] || kinds[i] != kinds[0] || local[i] != local[0] {
				t.Fail("differ-"+cats[i].name, "ctx=%q id=%q n=%v: PO returns %q (%s, localizer %q), %s returns %q (%s, localizer %q)", ctx, id, n, texts[0], kinds[0], local[0], cats[i].name, texts[i], kinds[i], local[i])
			}
		}
	}
	byKey := map[[2]string]*model.Entry{}
	for _, e := range x.mc.Entries {
		byKey[[2]string{e.Ctx, e.ID}] = e
	}
	ps := probes(t, x.mc)
	for _, e := range x.mc.Entries {
		ps = append(ps, [2]string{e.Ctx, e.ID})
	}
	for _, p := range ps {
		e := byKey[p]
		plural := "plural"
		// JSON: a singular lookup of a plural message has another meaning. Keys are flat, so only
		// unknown keys which are not the flat form of an existing one are comparable.
		compare(p[0], p[1], "", nil, withJSON && e != nil && !e.HasPlural)
		for k := 0; k < 5; k++ {
			n := randNum(t, x.rule.Set != nil, false)
			compare(p[0], p[1], plural, n.V, withJSON && e != nil && e.HasPlural)
		}
	}
	t.Count("found", found)
	if withJSON {
		t.Count("with JSON", 1)
	}
	t.Distinct("equal", string(moData))
	t.Sample("%s: %d messages as %d formats, %d lookups found", x.tag, len(x.mc.Entries), len(cats), found)
}

func c13reject(t *fw.T) {
	x := newMOCase(t, 1)
	if len(x.mc.Entries) > 30 {
		x.mc.Entries = x.mc.Entries[:30]
	}
	layout := model.RandMOLayout(t.Rand)
	pairs := x.mc.Pairs()
	data := model.MO(t.Rand, pairs, layout)
	var bo binary.ByteOrder = binary.LittleEndian
	if layout.Big {
		bo = binary.BigEndian
	}
	u := func(pos int) uint32 { return bo.Uint32(data[pos:]) }
	set := func(pos int, v uint32) { bo.PutUint32(data[pos:], v) }
	size := uint32(len(data))
	n := u(8)
	ok := false
	what := ""
	switch t.IntN(7) {
	case 0:
		what = "magic"
		switch t.IntN(3) {
		case 0:
			data[t.IntN(4)] ^= byte(1 << t.IntN(8))
		case 1:
			set(0, fw.Pick(t, []uint32{0, 0xffffffff, 0x950412df, 0x12950412, 0xde, 0x0412de95, 0x1204de95, 0x9504de12}))
		default:
			set(0, t.Uint32())
		}
		if v := bo.Uint32(data); v == 0x950412de || v == 0xde120495 {
			return
		}
	case 1:
		what = "revision"
		maj, min := uint32(fw.Pick(t, []int{0, 1, 2, 3, 256, 255, 0x8000, 0xffff})), uint32(fw.Pick(t, []int{0, 1, 2, 3, 256, 0xffff}))
		set(4, maj<<16|min)
		ok = maj < 2 && min < 2
		what += fmt.Sprint(maj, ".", min)
	case 2, 3:
		what = "string outside"
		tab := u(12 + 4*t.IntN(2))
		pos := int(tab) + 8*t.IntN(int(n))
		switch t.IntN(5) {
		case 0:
			set(pos, size-u(pos+4)+1+uint32(t.IntN(5)))
		case 1:
			set(pos+4, size-u(pos)+1+uint32(t.IntN(5)))
		case 2:
			set(pos, fw.Pick(t, []uint32{math.MaxUint32, math.MaxInt32, 1 << 31, size + 1, math.MaxUint32 - u(pos+4) + 1, math.MaxUint32 - u(pos+4) + 2}))
		case 3:
			set(pos+4, fw.Pick(t, []uint32{math.MaxUint32, math.MaxInt32, 1 << 31, size + 1}))
			if uint64(u(pos))+uint64(u(pos+4)) <= uint64(size) {
				return
			}
		default:
			set(pos, math.MaxUint32-10)
			set(pos+4, 20)
		}
	case 4:
		what = "table outside"
		pos := 12 + 4*t.IntN(2)
		set(pos, fw.Pick(t, []uint32{math.MaxUint32, math.MaxUint32 - 7, math.MaxUint32 - 8*n + 1, 1 << 31, size, size + 1, size - 8*n + 1, size - 8*n + 4}))
	case 5:
		what = "count"
		set(8, fw.Pick(t, []uint32{math.MaxUint32, 1 << 31, 1<<29 + n, 1 << 29, size, size/8 + 1}))
	default:
		what = "unchanged"
		ok = true
	}
	t.Note("%s: %q", what, data)
	_, d := x.decoders()
	cat, err := decodeEither(t, d, x.tag, "dom", data)
	t.Eval(1)
	if ok && err != nil {
		t.Fail("rejected", "%s: %v", what, err)
	}
	if !ok && (err == nil || cat != nil) {
		t.Fail("accepted-"+strings.Fields(what)[0], "MO file with wrong %s is accepted (%v)", what, err)
	}
	if ok {
		t.Count("accepted", 1)
	} else {
		t.Count("rejected", 1)
	}
	t.Distinct("reject", string(data))
	t.Sample("%s: %v", what, err)
}

func init() {
	register(&fw.Check{
		ID: "C13", QuickScale: 2,
		Rule: "catalogs are generated (texts with all kinds of characters, contexts, plural forms, headers) and written as MO files with random byte order, revision, hash table, string order, padding and shared strings; the decoded catalog (Messages, lookups of existing and near-miss keys, plural lookups) is compared with the model and an independent plural evaluator. The same catalog is written as PO, MO and (CLDR rules) JSON and every lookup is compared between the catalogs and between bundles made of them. Headers, tables and magic numbers are broken and the file must be rejected. Non-trivial: all",
		Gens: []fw.Gen{
			{Name: "exact", Quick: 4000, Thor: 150000, Run: c13exact},
			{Name: "equal", Quick: 2500, Thor: 80000, Run: c13equal},
			{Name: "reject", Quick: 6000, Thor: 200000, Run: c13reject},
		},
		MinNonTriv: 5000,
		Need:       []string{"plural texts compared", "layout big=true hash=true", "layout big=false hash=false", "found", "with JSON", "accepted", "rejected"},
		Assumptions: []string{
			"JSON is compared for singular lookups of singular messages and plural lookups of plural messages, other combinations have another meaning in JSON",
			"obsolete and fuzzy entries are not part of MO files",
		},
	})
}
