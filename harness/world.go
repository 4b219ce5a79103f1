package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing/fstest"

	"golang.org/x/text/language"
	"golang.org/x/text/message"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/localize"

	"verifharness/fw"
	"verifharness/model"
	"verifharness/oracle"
)

// A world is a set of catalogs, the bundle made from them and an independent
// description of what every lookup has to return.

type wnum struct {
	Name string
	V    any
	Bad  bool   // no number
	Text string // absolute value as decimal text
	Abs  int64  // absolute value if it is an integer
	Int  bool
}

type wcat struct {
	Tag    language.Tag
	Domain string
	Kind   string // po, po-cldr, po-flag, po-nohdr, mo, ..., json
	JSON   bool
	E      *oracle.CExpr
	Set    *oracle.CLDRSet
	Live   map[string]map[string]map[int]string // ctx, id, form
	Plur   map[string]bool                      // ctx+"\x04"+id of entries with several forms
	Data   []byte
	Ext    string
	Real   catalog.Catalog
}

const (
	formOK = iota
	formUnknown
	formBad
)

// form is the index (gettext) or category (JSON) a number selects.
func (c *wcat) form(n wnum) (int, int) {
	if n.Bad {
		return 0, formBad
	}
	if c.Set != nil {
		num, ok := oracle.ParseNum(n.Text)
		if !ok {
			return 0, formUnknown
		}
		cat := c.Set.Category(num)
		if c.JSON {
			return int(categoryByName[cat]), formOK
		}
		return c.Set.Index(cat), formOK
	}
	if !n.Int {
		return 0, formUnknown
	}
	v, ok := c.E.Eval(n.Abs)
	if !ok {
		return 0, formUnknown
	}
	return int(v), formOK
}

// wantErr describes a reported problem.
type wantErr struct {
	Kinds  []string // domain, context, id, translation, number, locale
	Tag    language.Tag
	Domain string
	Ctx    string
	ID     string
	Form   int
}

func (e wantErr) String() string {
	return fmt.Sprintf("%s lang=%s domain=%q ctx=%q id=%q form=%d", strings.Join(e.Kinds, "/"), e.Tag, e.Domain, e.Ctx, e.ID, e.Form)
}

// match returns "" if err reports e.
func (e wantErr) match(err error) string {
	if err == nil {
		return "no error was reported"
	}
	var md *spreak.ErrMissingDomain
	var mc *catalog.ErrMissingContext
	var mi *catalog.ErrMissingMessageID
	var mt *catalog.ErrMissingTranslation
	kind := "other"
	var tag language.Tag
	var domain, ctx, id string
	form := e.Form
	ctx, id = e.Ctx, e.ID
	switch {
	case errors.As(err, &md):
		kind, tag, domain = "domain", md.Language, md.Domain
	case errors.As(err, &mc):
		kind, tag, domain, ctx = "context", mc.Language, mc.Domain, mc.Context
	case errors.As(err, &mi):
		kind, tag, domain, ctx, id = "id", mi.Language, mi.Domain, mi.Context, mi.MsgID
	case errors.As(err, &mt):
		kind, tag, domain, ctx, id, form = "translation", mt.Language, mt.Domain, mt.Context, mt.MsgID, mt.Idx
	}
	if kind == "other" {
		if slices.Contains(e.Kinds, "number") || slices.Contains(e.Kinds, "locale") {
			return ""
		}
		return fmt.Sprintf("error %T %v has no information about the missing text", err, err)
	}
	if !slices.Contains(e.Kinds, kind) {
		return fmt.Sprintf("reports a missing %s (%v)", kind, err)
	}
	if tag != e.Tag || domain != e.Domain || ctx != e.Ctx || id != e.ID || form != e.Form {
		return fmt.Sprintf("describes another message: %v", err)
	}
	if err.Error() == "" {
		return "error without text"
	}
	return ""
}

// lookup answers a lookup in one catalog.
func (c *wcat) lookup(ctx, id string, plural bool, n wnum) (text string, werr *wantErr, known bool) {
	form := 0
	if c.JSON {
		form = int(categoryByName["Other"])
	}
	if plural {
		f, st := c.form(n)
		switch st {
		case formUnknown:
			return "", nil, false
		case formBad:
			return "", &wantErr{Kinds: []string{"number"}, Tag: c.Tag, Domain: c.Domain}, true
		}
		form = f
	}
	key := id
	if c.JSON && ctx != "" {
		key += "_" + ctx
	}
	w := wantErr{Tag: c.Tag, Domain: c.Domain, Ctx: ctx, ID: key, Form: form}
	m, ok := c.Live[ctx][id]
	switch {
	case len(c.Live[ctx]) == 0:
		// whether a context exists which has nothing to offer is not specified
		w.Kinds = []string{"context", "id"}
		return "", &w, true
	case !ok:
		w.Kinds = []string{"id"}
		return "", &w, true
	case m[form] == "":
		w.Kinds = []string{"translation"}
		return "", &w, true
	}
	return m[form], nil, true
}

type printCall struct {
	Tag  language.Tag
	Str  string
	Vars []any
}

type wprinter struct {
	w      *world
	inits  [][]language.Tag
	gets   []language.Tag
	early  bool // a print function was used or asked for before Init
	single bool // WithPrintFunction
}

type world struct {
	Langs     []language.Tag // in the order of SupportedLanguages
	Source    language.Tag
	Fallback  language.Tag
	Default   string
	ErrCtx    string
	Domains   []string // with loader
	Cats      map[language.Tag]map[string]*wcat
	Contexts  []string
	IDs       []string
	PrintMode int
	Callback  bool

	Bundle  *spreak.Bundle
	printer *wprinter
	mu      sync.Mutex
	cbs     []error
	kept    []keptErr
	prints  []printCall
	loads   []string
	optDesc []string
	opts    []spreak.BundleOption
	args    [][]any        // slices handed to options
	fss     []fstest.MapFS // file systems the catalogs were read from
	spoil   bool
	hooks   *whooks // instead of recording
}

// whooks receive what the bundle reports; they have to do their own synchronisation.
type whooks struct {
	callback func(error)
	print    func(printCall)
}

func (p *wprinter) Init(langs []language.Tag) {
	p.inits = append(p.inits, slices.Clone(langs))
	if p.w.spoil {
		spoil(langs)
	}
}

func (p *wprinter) GetPrintFunc(lang language.Tag) spreak.PrintFunc {
	p.gets = append(p.gets, lang)
	if len(p.inits) == 0 {
		p.early = true
	}
	return func(s string, vars ...any) string {
		p.w.recordPrint(printCall{lang, s, vars})
		return fmt.Sprintf("%s<%s>%v", lang, s, vars)
	}
}

func (w *world) recordPrint(p printCall) {
	if h := w.hooks; h != nil {
		h.print(p)
		return
	}
	w.mu.Lock()
	w.prints = append(w.prints, p)
	w.mu.Unlock()
}

// render is the text a print function of the language makes.
func (w *world) render(tag language.Tag, s string, vars []any) string {
	switch w.PrintMode {
	case 1:
		return fmt.Sprintf("F<%s>%v", s, vars)
	case 2:
		return fmt.Sprintf("%s<%s>%v", tag, s, vars)
	}
	if len(vars) == 0 {
		return s
	}
	return message.NewPrinter(tag).Sprintf(s, vars...)
}

func (w *world) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "options: %s\nlanguages %v source %s fallback %s default domain %q domains %q error context %q printer mode %d callback %v\n", strings.Join(w.optDesc, ", "), w.Langs, w.Source, w.Fallback, w.Default, w.Domains, w.ErrCtx, w.PrintMode, w.Callback)
	for _, l := range w.Langs {
		for _, d := range w.Domains {
			c := w.Cats[l][d]
			if c == nil {
				continue
			}
			data := string(c.Data)
			if strings.HasPrefix(c.Kind, "mo") {
				data = fmt.Sprintf("%v", c.Live)
			}
			fmt.Fprintf(&b, "--- %s %q (%s)\n%s\n", l, d, c.Kind, clipText(data, 1800))
		}
	}
	return b.String()
}

func clipText(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type worldOpts struct {
	Kinds    []string // catalog kinds
	Dead     bool     // fuzzy, obsolete, empty
	Print    int      // -1: any
	Callback int      // -1: any, 0 no, 1 yes
	Verbs    bool
	Plurals  bool // most entries have plural forms
	MaxLangs int
	Spoil    bool // printers and matcher builders overwrite the lists they are given
}

var (
	worldVariants = [][]string{{"de", "de-CH", "de-AT", "de-LI"}, {"es", "es-MX", "es-419", "es-CR"}, {"en", "en-IN", "en-ZA", "en-CH"}, {"fr", "fr-CH", "fr-CA", "fr-LU"}, {"pt", "pt-PT", "pt-BR"}, {"ar", "ar-MA", "ar-EG"}, {"it", "it-CH"}, {"hi", "hi-Latn"}, {"fa", "fa-AF"}, {"ur", "ur-IN"}, {"pa", "pa-Arab"}, {"uz", "uz-Arab", "uz-Cyrl"}, {"sr", "sr-Latn", "sr-BA"}}
	worldLangs    = []string{"de", "de-AT", "fr", "en", "en-GB", "pt-BR", "pt", "zh-Hans", "zh-Hant", "ru", "ar", "pl", "cs", "ja", "lv", "sr-Latn", "sr", "he", "ga", "tlh", "cy", "ro", "lt", "sl", "es", "es-MX", "hi", "ko", "mt", "br", "is", "da", "fil", "fa", "tr"}
	worldDomains  = []string{"", "app", "errors", "Grüße", "App", "app2", "a.b", "django"}
	worldContexts = []string{"", "", "errors", "ctx", "Ctx", "b", "b_c", "%s", "ctx ", "日"}
	worldIDs      = []string{"hello", "Hello", "hello ", " hello", "a", "a_b", "a_b_c", "%d files", "%d file", "100%", "hello\n", "x\ty", "ß\u0301", "", "one", "many", "line one\nline two", `quote " back \ slash`, "errors", "msgid", "%s", "日本", "a_errors"}
	worldPOKinds  = []string{"po", "po", "po-cldr", "po-flag", "po-nohdr", "mo", "mo", "mo-cldr", "mo-flag", "mo-nohdr"}
	worldAllKinds = append(slices.Clone(worldPOKinds), "json", "json", "json")
)

var categoryByName = func() map[string]cldrplural.Category {
	m := map[string]cldrplural.Category{}
	for c, n := range cldrplural.CategoryNames {
		m[n] = c
	}
	return m
}()

func randWorldTag(t *fw.T) language.Tag {
	if t.Chance(4) {
		return language.MustParse(fw.Pick(t, worldLangs))
	}
	for {
		tag := randTag(t, cldrLangs, t.IntN(2*len(cldrLangs)))
		if b, c := tag.Base(); tag != language.Und && c >= language.High && b.String() != "und" {
			return tag
		}
	}
}

// fillCatalog makes the content of one catalog and its file.
func (w *world) fillCatalog(t *fw.T, tag language.Tag, domain string, o worldOpts) *wcat {
	c := &wcat{Tag: tag, Domain: domain, Kind: fw.Pick(t, o.Kinds), Live: map[string]map[string]map[int]string{}, Plur: map[string]bool{}}
	c.JSON = c.Kind == "json"
	header := ""
	n := 2
	cset, hasCLDR := cldrFor(tag)
	switch {
	case c.JSON:
		c.Set = cset
	case strings.HasSuffix(c.Kind, "-nohdr"):
		c.Set = cset
	default:
		header = fw.Pick(t, allPluralForms())
		n, c.E = oracle.MustPlural(header)
		if !strings.HasSuffix(c.Kind, "o") && hasCLDR { // CLDR wanted and there are rules
			c.Set, c.E = cset, nil
		}
	}
	if c.Set != nil {
		n = len(c.Set.Cats)
	}

	mc := &model.Catalog{}
	if !strings.HasSuffix(c.Kind, "-nohdr") || t.Chance(2) {
		mc.HasHeader = true
		mc.Header = append(mc.Header, model.KV{K: "Project-Id-Version", V: "x"}, model.KV{K: "Content-Type", V: "text/plain; charset=UTF-8"})
		if header != "" {
			mc.Header = append(mc.Header, model.KV{K: "Plural-Forms", V: header})
		}
		if strings.HasSuffix(c.Kind, "-flag") {
			mc.Header = append(mc.Header, model.KV{K: "X-spreak-use-CLDR", V: fw.Pick(t, []string{"true", "True", "TRUE"})})
		} else if t.Chance(4) {
			mc.Header = append(mc.Header, model.KV{K: "X-spreak-use-CLDR", V: fw.Pick(t, []string{"false", "no", "0"})})
		}
		if t.Chance(3) {
			mc.HeaderFlag = []string{"fuzzy"}
		}
		mc.HeaderOpen = t.Chance(5)
		if t.Chance(3) {
			t.Shuffle(len(mc.Header), func(i, j int) { mc.Header[i], mc.Header[j] = mc.Header[j], mc.Header[i] })
		}
	}
	jsonMsgs := map[string]any{}

	mo := strings.HasPrefix(c.Kind, "mo")
	seen := map[string]bool{}
	total := 1 + t.IntN(14)
	for i := 0; i < total; i++ {
		ctx, id := fw.Pick(t, w.Contexts), fw.Pick(t, w.IDs)
		if id == "" && ctx == "" {
			continue
		}
		if id == "" && !c.JSON {
			continue // entries without a message id are not part of a gettext catalog
		}
		key := ctx + "\x04" + id
		if seen[key] {
			continue
		}
		seen[key] = true
		hasPlural := t.Chance(2) || (o.Plurals && !t.Chance(4))
		forms := map[int]string{}
		text := func(form string) string {
			s := fmt.Sprintf("[%s|%s|%s|%s|%s]", tag, domain, ctx, id, form)
			if t.Chance(15) { // texts that look like no translation, but are one
				if s = fw.Pick(t, []string{" ", "\n", "\u00a0", "\t", id, id, "-", "0", "fuzzy", "\u200b"}); s == "" {
					s = " "
				}
				return s
			}
			if o.Verbs {
				s += fw.Pick(t, []string{"", "", " %d", " %s", " %v and %v", " 100%", " %%", " %[2]v %[1]v", " %.2f", " %!", " %"})
			}
			if !c.JSON && t.Chance(6) {
				s += fw.Pick(t, []string{"\n", "\t\"q\"", "\\", "\\n", "  ", "é"})
			}
			return s
		}
		empty := func(s string) string {
			if o.Dead && t.Chance(5) {
				return ""
			}
			return s
		}
		if c.JSON {
			k := id
			if ctx != "" {
				k += "_" + ctx
			}
			if jsonMsgs[k] != nil || k == "" {
				continue
			}
			m := map[string]string{"other": empty(text("Other"))}
			forms[int(categoryByName["Other"])] = m["other"]
			if ctx != "" {
				m["context"] = ctx
			}
			if t.Chance(4) {
				m["comment"] = "a comment"
			}
			if hasPlural {
				for _, cat := range c.Set.Cats {
					if cat == "Other" || t.Chance(7) {
						continue
					}
					m[strings.ToLower(cat)] = empty(text(cat))
					forms[int(categoryByName[cat])] = m[strings.ToLower(cat)]
				}
				if t.Chance(5) { // a category the language does not have
					m[strings.ToLower(fw.Pick(t, oracle.Categories))] += ""
				}
				c.Plur[key] = true
			}
			if len(m) == 1 && t.Chance(2) {
				jsonMsgs[k] = m["other"]
			} else {
				jsonMsgs[k] = m
			}
		} else {
			e := &model.Entry{Ctx: ctx, ID: id, Str: map[int]string{}}
			if hasPlural {
				e.HasPlural = true
				e.Plural = fw.Pick(t, []string{id + "s", "many", id, "plural of " + id})
				k := n
				if t.Chance(6) {
					k = max(1, n+t.IntN(3)-1)
				}
				for f := 0; f < k; f++ {
					if !mo && f > 0 && t.Chance(9) {
						continue
					}
					e.Str[f] = empty(text(strconv.Itoa(f)))
				}
				c.Plur[key] = true
			} else {
				e.Str[0] = empty(text("0"))
			}
			if o.Dead && !mo {
				switch t.IntN(6) {
				case 0:
					e.Flags = []string{"fuzzy"}
					if t.Chance(2) {
						e.Flags = append(e.Flags, "c-format")
					}
				case 1:
					e.Obsolete = true
				}
			}
			if t.Chance(6) { // flags that are similar to fuzzy
				e.Flags = append(e.Flags, fw.Pick(t, []string{"Fuzzy", "FUZZY", "fuzzy-format", "not-fuzzy", "fuzz", "fuzzyy"}))
			}
			if t.Chance(4) {
				e.Flags = append(e.Flags, "go-format")
				e.Translator = []string{"note"}
				e.Extracted = []string{"fuzzy"}
				e.Refs = []model.Ref{{Path: "fuzzy", Line: 1}}
			}
			t.Shuffle(len(e.Flags), func(i, j int) { e.Flags[i], e.Flags[j] = e.Flags[j], e.Flags[i] })
			mc.Entries = append(mc.Entries, e)
			if e.Fuzzy() || e.Obsolete {
				continue
			}
			for f, s := range e.Str {
				forms[f] = s
			}
		}
		if c.Live[ctx] == nil {
			c.Live[ctx] = map[string]map[int]string{}
		}
		c.Live[ctx][id] = forms
	}

	served := mc.HasHeader
	for _, e := range mc.Entries {
		served = served || !e.Obsolete
	}
	if !served && !c.JSON { // a file without messages is not accepted
		mc.Entries = append(mc.Entries, &model.Entry{ID: "only", Str: map[int]string{0: "x"}})
		c.Live[""] = map[string]map[int]string{"only": {0: "x"}}
	}

	var dec catalog.Decoder
	switch {
	case c.JSON:
		if len(jsonMsgs) == 0 { // a file without messages is not accepted
			jsonMsgs["only"] = "x"
			c.Live[""] = map[string]map[int]string{"only": {int(categoryByName["Other"]): "x"}}
		}
		c.Data, _ = json.Marshal(jsonMsgs)
		c.Ext = ".json"
		dec = catalog.NewJSONDecoder()
	case mo:
		c.Data = model.MO(t.Rand, mc.Pairs(), model.RandMOLayout(t.Rand))
		c.Ext = ".mo"
		dec = catalog.NewMoDecoder()
		if c.Kind == "mo-cldr" {
			dec = catalog.NewMoCLDRDecoder()
		}
	default:
		c.Data = []byte(mc.PO(t.Rand, model.RandLayout(t.Rand)))
		c.Ext = ".po"
		dec = catalog.NewPoDecoder()
		if c.Kind == "po-cldr" {
			dec = catalog.NewPoCLDRDecoder()
		}
	}
	var err error
	if d2, ok := dec.(catalog.DecoderV2); ok && t.Chance(2) {
		c.Real, err = d2.DecodeReader(tag, domain, bytes.NewReader(c.Data))
	} else {
		c.Real, err = dec.Decode(tag, domain, slices.Clone(c.Data))
	}
	if err != nil {
		t.Note("%s catalog\n%s", c.Kind, c.Data)
		t.Fail("decode", "%s catalog of %s is rejected: %v", c.Kind, tag, err)
	}
	return c
}

type worldOption struct {
	desc  string
	opt   spreak.BundleOption
	langs []language.Tag // languages the option adds
}

// newWorld makes catalogs and a bundle which has to be created without an error.
func newWorld(t *fw.T, o worldOpts) *world {
	w := &world{Cats: map[language.Tag]map[string]*wcat{}, ErrCtx: "errors"}
	if len(o.Kinds) == 0 {
		o.Kinds = worldAllKinds
	}
	if o.MaxLangs == 0 {
		o.MaxLangs = 5
	}
	w.PrintMode = o.Print
	if o.Print < 0 {
		w.PrintMode = t.IntN(4)
	}
	w.Callback = o.Callback == 1 || (o.Callback < 0 && t.Chance(2))

	perm := t.Perm(len(worldDomains))
	for i := 1 + t.IntN(3); i > 0; i-- {
		w.Domains = append(w.Domains, worldDomains[perm[i]])
	}
	for i := 3 + t.IntN(3); i > 0; i-- {
		w.Contexts = append(w.Contexts, fw.Pick(t, worldContexts))
	}
	w.Contexts = append(w.Contexts, "", "errors")
	for i := 6 + t.IntN(6); i > 0; i-- {
		w.IDs = append(w.IDs, fw.Pick(t, worldIDs))
	}
	if t.Chance(8) { // long texts that differ at their ends only
		long := strings.Repeat("long ", fw.Pick(t, []int{12, 25, 51, 103, 205, 820, 1700}))
		for i, end := range []string{"one", "two", "", "one "} {
			if i < len(w.IDs) {
				w.IDs[i] = long + end
			}
		}
		if t.Chance(3) {
			w.Contexts[0], w.Contexts[1] = long+"a", long+"b"
		}
		t.Count("long texts", 1)
	}

	var langs []language.Tag
	for i := 1 + t.IntN(o.MaxLangs); i > 0; i-- {
		if tag := randWorldTag(t); !slices.Contains(langs, tag) {
			langs = append(langs, tag)
		}
	}
	if t.Chance(4) { // variants of one language, whose number formats differ
		vs := fw.Pick(t, worldVariants)
		for _, k := range t.Perm(len(vs)) {
			if tag := language.MustParse(vs[k]); !slices.Contains(langs, tag) && len(langs) < o.MaxLangs+2 && !t.Chance(3) {
				langs = append(langs, tag)
			}
		}
	}
	switch t.IntN(4) {
	case 0: // no source language
	case 1:
		w.Source = fw.Pick(t, langs)
	default:
		w.Source = randWorldTag(t)
	}
	if t.Chance(2) {
		w.Fallback = fw.Pick(t, append(langs, randWorldTag(t)))
	}
	var required []language.Tag
	if t.Chance(3) {
		required = append(required, fw.Pick(t, langs))
	}

	// catalogs
	full := func(l language.Tag) bool { return l == w.Fallback || slices.Contains(required, l) }
	all := slices.Clone(langs)
	if w.Fallback != language.Und && !slices.Contains(all, w.Fallback) {
		all = append(all, w.Fallback)
	}
	for _, l := range all {
		if l == w.Source {
			continue
		}
		w.Cats[l] = map[string]*wcat{}
		for _, d := range w.Domains {
			if full(l) || !t.Chance(5) {
				w.Cats[l][d] = w.fillCatalog(t, l, d, o)
			}
		}
	}

	// options
	var opts []worldOption
	add := func(opt spreak.BundleOption, langs []language.Tag, format string, a ...any) {
		opts = append(opts, worldOption{fmt.Sprintf(format, a...), opt, langs})
	}
	for _, d := range w.Domains {
		add(w.domainOption(t, d, all), nil, "domain %q", d)
	}
	w.Default = fw.Pick(t, w.Domains)
	switch {
	case t.Chance(5):
		w.Default = "unknown"
		fallthrough
	case w.Default != "" || t.Chance(2):
		add(spreak.WithDefaultDomain(w.Default), nil, "default domain")
	}
	if w.Source != language.Und {
		add(spreak.WithSourceLanguage(w.Source), []language.Tag{w.Source}, "source %s", w.Source)
	}
	if w.Fallback != language.Und {
		add(spreak.WithFallbackLanguage(tagOrName(t, w.Fallback)), []language.Tag{w.Fallback}, "fallback %s", w.Fallback)
	}
	if len(required) > 0 {
		add(spreak.WithRequiredLanguage(tagOrName(t, required[0])), required, "required %v", required)
	}
	cut := t.IntN(len(langs) + 1)
	for _, part := range [][]language.Tag{langs[:cut], langs[cut:]} {
		var xs []any
		for _, l := range part {
			xs = append(xs, tagOrName(t, l))
		}
		xs = roomy(xs)
		w.args = append(w.args, xs)
		add(spreak.WithLanguage(xs...), part, "languages %v", part)
	}
	if t.Chance(3) {
		w.ErrCtx = fw.Pick(t, w.Contexts)
		add(spreak.WithErrorContext(w.ErrCtx), nil, "error context %q", w.ErrCtx)
	}
	if o.Spoil {
		w.spoil = true
		add(spreak.WithLanguageMatcherBuilder(func(tags []language.Tag, opts ...language.MatchOption) language.Matcher {
			m := language.NewMatcher(slices.Clone(tags), opts...)
			spoil(tags)
			return m
		}), nil, "matcher builder that overwrites its argument")
	}
	if w.Callback {
		add(spreak.WithMissingTranslationCallback(func(err error) {
			if h := w.hooks; h != nil {
				h.callback(err)
				return
			}
			w.mu.Lock()
			w.cbs = append(w.cbs, err)
			w.mu.Unlock()
		}), nil, "callback")
	}
	switch w.PrintMode {
	case 1:
		add(spreak.WithPrintFunction(func(s string, vars ...any) string {
			w.recordPrint(printCall{language.Und, s, vars})
			return fmt.Sprintf("F<%s>%v", s, vars)
		}), nil, "print function")
	case 2:
		w.printer = &wprinter{w: w}
		add(spreak.WithPrinter(w.printer), nil, "printer")
	case 3:
		add(spreak.WithPrinter(spreak.NewDefaultPrinter()), nil, "default printer")
	}
	t.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	var list []spreak.BundleOption
	for _, op := range opts {
		list = append(list, op.opt)
		w.optDesc = append(w.optDesc, op.desc)
		for _, l := range op.langs {
			if !slices.Contains(w.Langs, l) && (l == w.Source || len(liveDomains(w.Cats[l])) > 0) {
				w.Langs = append(w.Langs, l)
			}
		}
	}
	t.Note("%s", w)
	list = roomy(list)
	b, err := spreak.NewBundle(list...)
	if err != nil {
		t.Fail("bundle", "NewBundle: %v", err)
	}
	w.Bundle, w.opts = b, list
	return w
}

func liveDomains(m map[string]*wcat) []string {
	out := []string{}
	for d, c := range m {
		if c != nil {
			out = append(out, d)
		}
	}
	sort.Strings(out)
	return out
}

func tagOrText(t *fw.T, l language.Tag) any {
	if t.Chance(2) {
		return l.String()
	}
	return l
}

// tagOrName returns a language as the options of a bundle accept it.
func tagOrName(t *fw.T, l language.Tag) any {
	switch t.IntN(8) {
	case 0, 1, 2:
		return l.String()
	case 3: // as in the environment variables LANG and LANGUAGE
		s := l.String()
		if t.Chance(2) {
			s = strings.ReplaceAll(s, "-", "_")
		}
		if t.Chance(3) {
			s += fw.Pick(t, []string{".UTF-8", ".ISO-8859-1"})
		}
		if t.Chance(3) {
			s += fw.Pick(t, []string{"@euro", "@x.y"})
		}
		if t.Chance(2) {
			s += fw.Pick(t, []string{":en", ":en:fr", ":", "::", ":en_US.UTF-8@a:b", ":@"})
		}
		return s
	}
	return l
}

// domainOption loads the catalogs of a domain from memory or from a file system.
func (w *world) domainOption(t *fw.T, domain string, langs []language.Tag) spreak.BundleOption {
	bases := map[string]bool{}
	ok := !strings.ContainsAny(domain, ".")
	cldr := map[string]int{}
	for _, l := range langs {
		b, _ := l.Base()
		if bases[b.String()] || bases[b.ISO3()] {
			ok = false // files of one language would be used for another
		}
		bases[b.String()], bases[b.ISO3()] = true, true
		if c := w.Cats[l][domain]; c != nil && c.Ext != ".json" {
			k := 1
			if strings.HasSuffix(c.Kind, "-cldr") {
				k = 2
			}
			cldr[c.Ext] |= k
		}
	}
	if ok && cldr[".po"] < 3 && cldr[".mo"] < 3 && t.Chance(2) {
		fsys := fstest.MapFS{"unrelated.txt": {Data: []byte("x")}}
		for _, l := range langs {
			if c := w.Cats[l][domain]; c != nil {
				name := l.String()
				p := fw.Pick(t, []string{name + "/" + domain, name + "/LC_MESSAGES/" + domain, domain + "/" + name})
				if domain == "" {
					p = fw.Pick(t, []string{name, "LC_MESSAGES/" + name})
				}
				fsys[p+c.Ext] = &fstest.MapFile{Data: c.Data}
			}
		}
		w.fss = append(w.fss, fsys)
		if cldr[".po"] != 2 && cldr[".mo"] != 2 && t.Chance(2) {
			return spreak.WithDomainFs(domain, fsys)
		}
		po, mo := catalog.NewPoDecoder(), catalog.NewMoDecoder()
		if cldr[".po"] == 2 {
			po = catalog.NewPoCLDRDecoder()
		}
		if cldr[".mo"] == 2 {
			mo = catalog.NewMoCLDRDecoder()
		}
		return spreak.WithFilesystemLoader(domain, spreak.WithFs(fsys), spreak.WithDecoder(".mo", mo), spreak.WithDecoder(".po", po), spreak.WithDecoder(".json", catalog.NewJSONDecoder()))
	}
	return spreak.WithDomainLoader(domain, loaderFunc(func(l language.Tag, d string) (catalog.Catalog, error) {
		if w.hooks == nil {
			w.loads = append(w.loads, l.String()+" "+d)
		}
		if c := w.Cats[l][d]; c != nil {
			return c.Real, nil
		}
		return nil, spreak.NewErrNotFound(l, "test", "domain %q", d)
	}))
}

// ---- lookups

type wloc struct {
	l     *spreak.Localizer
	kl    *spreak.KeyLocalizer
	Tag   language.Tag // language the lookups start with
	Found bool
	Def   string
	Desc  string
}

// localizer creates a localizer for one of the languages, or for none of them.
func (w *world) localizer(t *fw.T) *wloc {
	x := &wloc{Def: w.Default}
	var args []any
	switch {
	case len(w.Langs) > 0 && !t.Chance(6):
		args = []any{tagOrText(t, fw.Pick(t, w.Langs))}
		if t.Chance(4) {
			args = append(args, "ja;q=0.5, de;q=0.3")
		}
	default:
		args = fw.Pick(t, [][]any{nil, {"-"}, {"mi"}, {42, language.MustParse("qu")}})
	}
	x.Tag, x.Found = w.match(args)
	x.Desc = fmt.Sprintf("localizer for %v", args)
	if t.Chance(3) {
		x.Def = fw.Pick(t, append([]string{"unknown"}, w.Domains...))
		x.Desc += fmt.Sprintf(" and domain %q", x.Def)
		x.l = spreak.NewLocalizerForDomain(w.Bundle, x.Def, args...)
		x.kl = spreak.NewKeyLocalizerForDomain(w.Bundle, x.Def, args...)
	} else {
		x.l = spreak.NewLocalizer(w.Bundle, args...)
		x.kl = spreak.NewKeyLocalizer(w.Bundle, args...)
	}
	return x
}

// match is the language lookups start with for the given preferences.
func (w *world) match(args []any) (language.Tag, bool) {
	var tags []language.Tag
	for _, a := range args {
		switch v := a.(type) {
		case language.Tag:
			tags = append(tags, v)
		case string:
			if ts, _, err := language.ParseAcceptLanguage(v); err == nil {
				tags = append(tags, ts...)
			}
		}
	}
	_, idx, conf := language.NewMatcher(w.Langs).Match(tags...)
	if conf > language.No && idx < len(w.Langs) {
		return w.Langs[idx], true
	}
	return w.fallbackTag(), false
}

func (w *world) fallbackTag() language.Tag {
	if slices.Contains(w.Langs, w.Fallback) {
		return w.Fallback
	}
	return w.Source
}

type wcall struct {
	Key        bool // KeyLocalizer
	D, N, P, F bool
	Via        string // "", Localize, LocalizeWithError
	Domain     string
	Ctx        string
	ID, Plural string
	Num        wnum
	Vars       []any
}

func (c wcall) String() string {
	n := c.Via
	if n == "" {
		if c.D {
			n += "D"
		}
		if c.N {
			n += "N"
		}
		if c.P {
			n += "P"
		}
		n += "Get"
		if c.F {
			n += "f"
		}
		if c.Key {
			n = "Key." + n
		}
	}
	return fmt.Sprintf("%s(domain=%q(%v) ctx=%q id=%q plural=%q(%v) n=%s vars=%v)", n, c.Domain, c.D, c.Ctx, c.ID, c.Plural, c.N, c.Num.Name, c.Vars)
}

type wmessage struct{ c *wcall }

func (m wmessage) GetMsgID() string { return m.c.ID }
func (m wmessage) GetPluralID() string {
	if m.c.N {
		return m.c.Plural
	}
	return ""
}
func (m wmessage) GetContext() string { return m.c.Ctx }
func (m wmessage) GetVars() []any     { return m.c.Vars }
func (m wmessage) GetCount() int      { return m.c.Num.V.(int) }
func (m wmessage) HasDomain() bool    { return m.c.D }
func (m wmessage) GetDomain() string  { return m.c.Domain }
func (m wmessage) Error() string      { return "error " + m.c.ID }

func (c *wcall) localizable() localize.Localizable {
	if c.D {
		return wmessage{c}
	}
	p := ""
	if c.N {
		p = c.Plural
	}
	n, _ := c.Num.V.(int)
	return &localize.Message{Singular: c.ID, Plural: p, Context: c.Ctx, Vars: c.Vars, Count: n}
}

// invoke performs the call.
func (c *wcall) invoke(x *wloc) string {
	switch c.Via {
	case "Localize":
		return x.l.Localize(c.localizable())
	case "LocalizeWithError":
		s, _ := x.l.LocalizeWithError(c.localizable())
		return s
	}
	l, k, n, v := x.l, x.kl, c.Num.V, c.Vars
	bits := 0
	for i, b := range []bool{c.D, c.N, c.P, c.F} {
		if b {
			bits |= 1 << i
		}
	}
	if c.Key {
		switch bits {
		case 0:
			return k.Get(c.ID)
		case 1:
			return k.DGet(c.Domain, c.ID)
		case 2:
			return k.NGet(c.ID, n)
		case 3:
			return k.DNGet(c.Domain, c.ID, n)
		case 4:
			return k.PGet(c.Ctx, c.ID)
		case 5:
			return k.DPGet(c.Domain, c.Ctx, c.ID)
		case 6:
			return k.NPGet(c.Ctx, c.ID, n)
		case 7:
			return k.DNPGet(c.Domain, c.Ctx, c.ID, n)
		case 8:
			return k.Getf(c.ID, v...)
		case 9:
			return k.DGetf(c.Domain, c.ID, v...)
		case 10:
			return k.NGetf(c.ID, n, v...)
		case 11:
			return k.DNGetf(c.Domain, c.ID, n, v...)
		case 12:
			return k.PGetf(c.Ctx, c.ID, v...)
		case 13:
			return k.DPGetf(c.Domain, c.Ctx, c.ID, v...)
		case 14:
			return k.NPGetf(c.Ctx, c.ID, n, v...)
		default:
			return k.DNPGetf(c.Domain, c.Ctx, c.ID, n, v...)
		}
	}
	switch bits {
	case 0:
		return l.Get(c.ID)
	case 1:
		return l.DGet(c.Domain, c.ID)
	case 2:
		return l.NGet(c.ID, c.Plural, n)
	case 3:
		return l.DNGet(c.Domain, c.ID, c.Plural, n)
	case 4:
		return l.PGet(c.Ctx, c.ID)
	case 5:
		return l.DPGet(c.Domain, c.Ctx, c.ID)
	case 6:
		return l.NPGet(c.Ctx, c.ID, c.Plural, n)
	case 7:
		return l.DNPGet(c.Domain, c.Ctx, c.ID, c.Plural, n)
	case 8:
		return l.Getf(c.ID, v...)
	case 9:
		return l.DGetf(c.Domain, c.ID, v...)
	case 10:
		return l.NGetf(c.ID, c.Plural, n, v...)
	case 11:
		return l.DNGetf(c.Domain, c.ID, c.Plural, n, v...)
	case 12:
		return l.PGetf(c.Ctx, c.ID, v...)
	case 13:
		return l.DPGetf(c.Domain, c.Ctx, c.ID, v...)
	case 14:
		return l.NPGetf(c.Ctx, c.ID, c.Plural, n, v...)
	default:
		return l.DNPGetf(c.Domain, c.Ctx, c.ID, c.Plural, n, v...)
	}
}

func randNum(t *fw.T, fractions, bad bool) wnum {
	if bad && t.Chance(15) {
		x := fw.Pick(t, []rep{{"nil", nil}, {"text", "abc"}, {"nil pointer", (*int)(nil)}, {"empty text", ""}, {"struct", struct{ A string }{"x"}}})
		return wnum{Name: x.Name, V: x.V, Bad: true}
	}
	if fractions && t.Chance(4) {
		s := fmt.Sprintf("%d.%d", t.IntN(fw.Pick(t, []int{3, 12, 200})), t.IntN(100))
		sign := fw.Pick(t, []string{"", "", "-"})
		return wnum{Name: fmt.Sprintf("%q", sign+s), V: sign + s, Text: s}
	}
	u := uint64(t.IntN(25))
	if t.Chance(3) {
		u = min(randUint(t), math.MaxInt64)
	}
	neg := t.Chance(8)
	reps := integerReps(u, neg)
	x := reps[0]
	if t.Chance(2) {
		x = fw.Pick(t, reps)
	}
	return wnum{Name: x.Name, V: x.V, Text: strconv.FormatUint(u, 10), Abs: int64(u), Int: true}
}

var worldVars = [][]any{nil, {}, {3}, {"x"}, {1234567}, {1234.5, "y"}, {"a", 7}, {12, 34, 56}, {nil}, {true, 'c'}, {"%d"}}

// randCall makes a lookup which mostly asks for entries that exist somewhere.
func (w *world) randCall(t *fw.T, bad bool) wcall {
	c := wcall{Domain: fw.Pick(t, append([]string{"unknown"}, w.Domains...)), Ctx: fw.Pick(t, append([]string{"none"}, w.Contexts...)), ID: fw.Pick(t, append([]string{"not there", "a_b"}, w.IDs...))}
	c.D, c.P, c.F, c.Key = t.Chance(2), t.Chance(2), t.Chance(2), t.Chance(3)
	if !c.P {
		c.Ctx = ""
	}
	if len(w.Langs) > 0 && t.Chance(2) { // an entry of a catalog
		l := fw.Pick(t, w.Langs)
		if ds := liveDomains(w.Cats[l]); len(ds) > 0 {
			cat := w.Cats[l][fw.Pick(t, ds)]
			ctxs := fw.SortedKeys(cat.Live)
			if len(ctxs) > 0 {
				c.Domain, c.D = cat.Domain, true
				c.Ctx = fw.Pick(t, ctxs)
				c.P = c.Ctx != "" || t.Chance(2)
				c.ID = fw.Pick(t, fw.SortedKeys(cat.Live[c.Ctx]))
				c.N = cat.Plur[c.Ctx+"\x04"+c.ID]
			}
		}
	}
	if t.Chance(3) {
		c.N = !c.N
	}
	if c.N {
		c.Plural = fw.Pick(t, []string{c.ID + "s", "many", "%d things", c.ID, "", "plural"})
		c.Num = randNum(t, true, bad)
	}
	if c.F {
		c.Vars = fw.Pick(t, worldVars)
	}
	if t.Chance(6) {
		c.Via = fw.Pick(t, []string{"Localize", "LocalizeWithError"})
		c.Key = false
		c.Vars = fw.Pick(t, worldVars)
		if c.N && c.Plural == "" {
			c.N = false // a message without a plural
		}
		if c.N {
			n := t.IntN(30)
			c.Num = wnum{Name: fmt.Sprint(n), V: n, Text: strconv.Itoa(n), Abs: int64(n), Int: true}
		} else {
			c.Num = wnum{V: 1}
		}
		return c
	}
	if c.Key {
		c.Plural = c.ID
	}
	return c
}

// vary chooses one of the methods that ask for the same entry.
func (w *world) vary(t *fw.T, x *wloc, c *wcall) {
	if t.Chance(3) {
		return
	}
	c.D = c.Domain != x.Def || t.Chance(2)
	c.P = c.Ctx != "" || t.Chance(2)
	c.F = t.Chance(3)
	switch t.IntN(4) {
	case 0:
		c.Key, c.Plural = true, c.ID
	case 1, 2:
		if c.N && c.Plural == "" || c.Num.Bad {
			break
		}
		c.Via, c.F = fw.Pick(t, []string{"Localize", "LocalizeWithError"}), false
		if n := t.IntN(40) - t.IntN(4); c.N {
			c.Num = wnum{Name: strconv.Itoa(n), V: n, Abs: int64(max(n, -n)), Int: true}
			c.Num.Text = strconv.FormatInt(c.Num.Abs, 10)
		} else {
			c.Num = wnum{V: n}
		}
	}
}

// woutcome is what a lookup has to do.
type woutcome struct {
	Known bool
	Text  string // before formatting
	Tag   language.Tag
	Final string
	Err   *wantErr
	Cbs   []wantErr
	Level int // 0 the language itself, 1 fallback, 2 source text
	Bad   bool
}

func (w *world) expect(x *wloc, c wcall) woutcome {
	domain := x.Def
	if c.D {
		domain = c.Domain
	}
	out := woutcome{Known: true, Bad: c.N && c.Num.Bad}
	source := func() (string, bool) {
		if !c.N {
			return c.ID, true
		}
		if c.Num.Bad {
			return c.ID, true
		}
		g, _ := gettextFor(w.Source)
		if c.Plural == "" {
			return c.ID, true
		}
		if !c.Num.Int {
			return "", false
		}
		if v, _ := g.E.Eval(c.Num.Abs); v == 0 {
			return c.ID, true
		}
		return c.Plural, true
	}
	finish := func(text string, tag language.Tag, level int) woutcome {
		out.Text, out.Tag, out.Level = text, tag, level
		out.Final = w.render(tag, text, c.Vars)
		return out
	}
	tags := []language.Tag{x.Tag}
	if f := w.fallbackTag(); f != x.Tag {
		tags = append(tags, f)
	}
	for i, tag := range tags {
		if tag == w.Source {
			text, ok := source()
			if !ok {
				return woutcome{}
			}
			level := i
			if i == 0 && !x.Found {
				out.Err = &wantErr{Kinds: []string{"locale"}}
			}
			if i > 0 {
				level = 2
			}
			return finish(text, tag, level)
		}
		cat := w.Cats[tag][domain]
		var werr *wantErr
		if cat == nil {
			werr = &wantErr{Kinds: []string{"domain"}, Tag: tag, Domain: domain}
		} else {
			text, e, known := cat.lookup(c.Ctx, c.ID, c.N, c.Num)
			if !known {
				return woutcome{}
			}
			if e == nil {
				if i == 0 && !x.Found {
					out.Err = &wantErr{Kinds: []string{"locale"}}
				}
				return finish(text, tag, i)
			}
			werr = e
		}
		out.Cbs = append(out.Cbs, *werr)
		if i == 0 {
			out.Err = werr
		}
	}
	text, ok := source()
	if !ok {
		return woutcome{}
	}
	return finish(text, w.Source, 2)
}

func (w *world) reset() {
	w.mu.Lock()
	w.cbs, w.prints = nil, nil
	w.mu.Unlock()
}
