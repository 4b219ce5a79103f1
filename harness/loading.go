package main

import (
	"errors"
	"fmt"
	"slices"
	"sort"
	"strings"
	"testing/fstest"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"

	"verifharness/fw"
)

// tagCatalog answers the lookup of "lang" with its language and domain.
type tagCatalog struct {
	tag    language.Tag
	domain string
}

func (c *tagCatalog) Lookup(ctx, id string) (string, error) {
	if ctx == "" && id == "lang" {
		return c.tag.String() + "|" + c.domain, nil
	}
	return id, catalog.NewErrMissingMessageID(c.tag, c.domain, ctx, id)
}
func (c *tagCatalog) LookupPlural(ctx, id string, n any) (string, error) { return c.Lookup(ctx, id) }
func (c *tagCatalog) Language() language.Tag                             { return c.tag }

// fixedMatcher selects an index by its own rule.
type fixedMatcher struct {
	tags []language.Tag
	salt int
}

func (m fixedMatcher) Match(prefs ...language.Tag) (language.Tag, int, language.Confidence) {
	h := m.salt
	for _, p := range prefs {
		for _, b := range []byte(p.String()) {
			h = (h*31 + int(b)) % 1000003
		}
		h = h*7 + 1
	}
	if len(m.tags) == 0 || len(prefs) == 0 || h%4 == 0 {
		return language.Und, 0, language.No
	}
	i := (h / 4) % len(m.tags)
	return m.tags[i], i, []language.Confidence{language.Low, language.High, language.Exact}[h%3]
}

var acceptItems = []string{"de", "de-DE", "de-AT", "en", "en-US;q=0.8", "fr;q=0.9", "*", "*;q=0.1", "zh-TW", "zh-Hant-HK", "sr-Cyrl", "pt-PT;q=0.3", "es-419", "nb", "nn;q=0.2", "gsw", "he", "iw", "mo", "ro-MD", "sh", "cmn", "no", "x-private", "en-GB-oxendict", "ar-EG", "und", "tlh", "pt", "pt-BR;q=1.0", "ru;q=0"}

func randAccept(t *fw.T) string {
	switch t.IntN(12) {
	case 0:
		return fw.Pick(t, []string{"", " ", ",", "garbage!!", "de;q=x", "de;;", "de-DE-", "toolonglanguagetag", "-", "de,,en", "\x00", "de;q=2", "en_US.UTF-8", "C", "en_US", "de;q=0,en", "é", "a-b-c-d", "12"})
	}
	var items []string
	for i := 1 + t.IntN(4); i > 0; i-- {
		items = append(items, fw.Pick(t, acceptItems))
	}
	return strings.Join(items, fw.Pick(t, []string{",", ", ", " , "}))
}

func randPreferences(t *fw.T) []any {
	var out []any
	for i := t.IntN(4); i > 0; i-- {
		switch t.IntN(6) {
		case 0:
			out = append(out, fw.Pick(t, []any{nil, 42, []string{"de"}, language.MustParseBase("de"), ptr("de"), ptr(language.German), struct{}{}, 'd', []byte("de"), error(nil), namedString("de")}))
		case 1, 2:
			out = append(out, randTag(t, cldrLangs, t.IntN(3*len(cldrLangs))))
		default:
			out = append(out, randAccept(t))
		}
	}
	return out
}

func c06case(t *fw.T) {
	var langs []language.Tag
	for i := t.IntN(7); i > 0; i-- {
		tag := language.MustParse(fw.Pick(t, []string{"de", "de-AT", "de-CH", "en", "en-GB", "fr", "fr-CA", "pt", "pt-BR", "pt-PT", "zh", "zh-Hans", "zh-Hant", "sr", "sr-Latn", "no", "nb", "nn", "es", "es-419", "es-MX", "he", "ro", "hr", "ar", "ru", "tlh", "fil", "id", "mul", "und-US"}))
		if t.Chance(5) {
			tag = randWorldTag(t)
		}
		if !slices.Contains(langs, tag) && tag != language.Und {
			langs = append(langs, tag)
		}
	}
	var source, fallback language.Tag
	if t.Chance(2) {
		source = fw.Pick(t, append([]language.Tag{language.English}, langs...))
	}
	if t.Chance(2) && len(langs) > 0 {
		fallback = fw.Pick(t, langs)
	}
	missing := map[language.Tag]bool{}
	for _, l := range langs {
		if l != fallback && l != source && t.Chance(6) {
			missing[l] = true
		}
	}
	var builtWith []language.Tag
	opts := []spreak.BundleOption{spreak.WithDomainLoader("", loaderFunc(func(l language.Tag, d string) (catalog.Catalog, error) {
		if missing[l] {
			return nil, spreak.NewErrNotFound(l, "test", "")
		}
		return &tagCatalog{l, d}, nil
	}))}
	matcher := language.NewMatcher
	custom := t.Chance(3)
	if custom {
		salt := t.IntN(1000)
		matcher = func(tags []language.Tag, _ ...language.MatchOption) language.Matcher {
			builtWith = slices.Clone(tags)
			return fixedMatcher{slices.Clone(tags), salt}
		}
		opts = append(opts, spreak.WithLanguageMatcherBuilder(matcher))
	}
	type langOpt struct {
		o spreak.BundleOption
		l []language.Tag
	}
	var lo []langOpt
	var xs []any
	for _, l := range langs {
		xs = append(xs, tagOrName(t, l))
	}
	lo = append(lo, langOpt{spreak.WithLanguage(xs...), langs})
	if source != language.Und {
		lo = append(lo, langOpt{spreak.WithSourceLanguage(source), []language.Tag{source}})
	}
	if fallback != language.Und {
		lo = append(lo, langOpt{spreak.WithFallbackLanguage(fallback), []language.Tag{fallback}})
	}
	t.Shuffle(len(lo), func(i, j int) { lo[i], lo[j] = lo[j], lo[i] })
	var want []language.Tag
	for _, x := range lo {
		opts = append(opts, x.o)
		for _, l := range x.l {
			if !missing[l] && !slices.Contains(want, l) {
				want = append(want, l)
			}
		}
	}
	t.Note("languages %v source %s fallback %s custom matcher %v", want, source, fallback, custom)
	b, err := spreak.NewBundle(opts...)
	if err != nil {
		t.Fail("bundle", "NewBundle: %v", err)
	}
	if got := b.SupportedLanguages(); !slices.Equal(got, want) {
		t.Fail("supported", "SupportedLanguages %v, want %v", got, want)
	}
	if custom {
		builtBundle := builtWith
		if !slices.Equal(builtBundle, want) {
			t.Fail("matcher-languages", "the matcher was built with %v, want %v", builtBundle, want)
		}
	}
	m := matcher(want)
	for i := 0; i < 25; i++ {
		prefs := randPreferences(t)
		if i == 0 && len(want) > 0 {
			prefs = []any{fw.Pick(t, want)}
		}
		var tags []language.Tag
		for _, p := range prefs {
			switch v := p.(type) {
			case language.Tag:
				tags = append(tags, v)
			case string:
				if ts, _, err := language.ParseAcceptLanguage(v); err == nil {
					tags = append(tags, ts...)
				} else {
					t.Count("unusable preferences", 1)
				}
			default:
				t.Count("unusable preferences", 1)
			}
		}
		_, idx, conf := m.Match(tags...)
		exp, found := source, conf > language.No
		if fallback != language.Und {
			exp = fallback
		}
		if found {
			exp = want[idx]
			t.Count("matched", 1)
		} else {
			t.Count("not matched", 1)
		}
		var l *spreak.Localizer
		dom := ""
		switch t.IntN(4) {
		case 0:
			l = spreak.NewLocalizer(b, prefs...)
		case 1:
			dom = "d"
			l = spreak.NewLocalizerForDomain(b, dom, prefs...)
		case 2:
			l = spreak.NewKeyLocalizer(b, prefs...).Localizer
		default:
			dom = "d"
			l = spreak.NewKeyLocalizerForDomain(b, dom, prefs...).Localizer
		}
		t.Eval(1)
		t.Distinct(want, fmt.Sprint(prefs...), exp)
		if l.Language() != exp || l.HasLocale() != found || l.DefaultDomain() != dom {
			t.Fail("language", "localizer for %q (%v): language %s found %v domain %q, want %s %v %q", prefs, tags, l.Language(), l.HasLocale(), l.DefaultDomain(), exp, found, dom)
		}
		text := exp.String() + "|"
		if exp == source || len(want) == 0 {
			text = "lang"
		}
		if got := l.DGet("", "lang"); got != text {
			t.Fail("texts", "localizer for %q of language %s delivers %q, want %q", prefs, l.Language(), got, text)
		}
		hasCat := exp != source && exp != language.Und
		if l.HasDomain("") != hasCat || l.HasDomain("d") || (len(l.Domains()) == 1) != hasCat {
			t.Fail("domains", "localizer of language %s: HasDomain %v, Domains %q", l.Language(), l.HasDomain(""), l.Domains())
		}
		one := randTag(t, cldrLangs, t.IntN(3*len(cldrLangs)))
		if t.Chance(2) && len(tags) > 0 {
			one = fw.Pick(t, tags)
		}
		if got, ref := b.IsLanguageSupported(one), spreak.NewLocalizer(b, one).HasLocale(); got != ref {
			t.Fail("is-supported", "IsLanguageSupported(%s) = %v, a localizer for it: %v", one, got, ref)
		}
		if i == 3 {
			t.Sample("%v with %q -> %s (%v)", want, prefs, exp, found)
		}
	}
}

// ---- C07

type loadResult int

const (
	resCat loadResult = iota
	resNotFound
	resWrapped // a wrapped not-found error
	resError
	resBroken // the file of a file system loader is broken
)

type injected struct {
	l language.Tag
	d string
}

func (e *injected) Error() string { return "injected error of " + e.l.String() + " " + e.d }

func c07case(t *fw.T) {
	type pair struct {
		l language.Tag
		d string
	}
	results := map[pair]loadResult{}
	calls := map[pair]int{}
	var candidates []error // acceptable causes
	anyErr := false        // an error whose cause cannot be compared
	var domains []string
	var opts []spreak.BundleOption
	var desc []string
	pErr := fw.Pick(t, []int{0, 0, 8, 40}) // 1/n of the loads fail
	pMiss := fw.Pick(t, []int{0, 3, 6})
	var pool []language.Tag
	for i := 2 + t.IntN(4); i > 0; i-- {
		pool = append(pool, language.MustParse(fw.Pick(t, worldLangs)))
	}

	for i := t.IntN(4); i > 0; i-- {
		d := fw.Pick(t, worldDomains)
		if slices.Contains(domains, d) {
			continue
		}
		domains = append(domains, d)
		desc = append(desc, fmt.Sprintf("domain %q", d))
		if t.Chance(4) { // files
			fsys := fstest.MapFS{"x/y.txt": {}}
			bases := map[string]bool{}
			for _, l := range pool {
				b, _ := l.Base()
				if bases[b.ISO3()] {
					if _, ok := results[pair{l, d}]; !ok {
						results[pair{l, d}] = -1 // decided by a file of another language
					}
					continue
				}
				bases[b.ISO3()] = true
				res := resCat
				if pMiss > 0 && t.Chance(pMiss) {
					res = resNotFound
				} else if pErr > 0 && t.Chance(pErr) {
					res = resBroken
				}
				results[pair{l, d}] = res
				text := fmt.Sprintf("msgid \"lang\"\nmsgstr \"%s|%s\"\n", l, d)
				name := l.String() + "/" + d + ".po"
				if d == "" {
					name = l.String() + ".po"
				}
				switch res {
				case resCat:
					fsys[name] = &fstest.MapFile{Data: []byte(text)}
				case resBroken:
					fsys[name] = &fstest.MapFile{Data: []byte(fw.Pick(t, []string{"", "msgid \"x\nmsgstr", "foo", text + text}))}
				}
			}
			ambiguous := false
			for _, l := range pool {
				ambiguous = ambiguous || results[pair{l, d}] == -1
			}
			if !ambiguous {
				opts = append(opts, spreak.WithDomainFs(d, fsys))
				continue
			}
		}
		for _, l := range pool {
			r := resCat
			if pMiss > 0 && t.Chance(pMiss) {
				r = resNotFound
				if t.Chance(4) {
					r = resWrapped
				}
			} else if pErr > 0 && t.Chance(pErr) {
				r = resError
			}
			results[pair{l, d}] = r
		}
		opts = append(opts, spreak.WithDomainLoader(d, loaderFunc(func(l language.Tag, dom string) (catalog.Catalog, error) {
			calls[pair{l, dom}]++
			switch results[pair{l, dom}] {
			case resNotFound:
				return nil, spreak.NewErrNotFound(l, "test", "domain=%q", dom)
			case resWrapped:
				return nil, fmt.Errorf("loader: %w", spreak.NewErrNotFound(l, "test", "domain=%q", dom))
			case resError:
				return nil, &injected{l, dom}
			}
			return &tagCatalog{l, dom}, nil
		})))
	}

	type mention struct {
		l        language.Tag
		required bool
	}
	type langOpt struct {
		o    spreak.BundleOption
		ms   []mention
		desc string
		kind byte // source, fallback
	}
	var source, fallback language.Tag
	var los []langOpt
	name := func(l language.Tag) any {
		s := l.String()
		switch t.IntN(8) {
		case 0:
			return s + ".UTF-8"
		case 1:
			return strings.ReplaceAll(s, "-", "_") + "@variant"
		case 2:
			return " " + s + ":en:fr "
		}
		return tagOrName(t, l)
	}
	bad := func() (any, []error, bool) {
		switch t.IntN(3) {
		case 0:
			return fw.Pick(t, []any{42, nil, []string{"de"}, language.MustParseBase("de"), ptr("de"), namedString("de")}), []error{spreak.ErrRequireStringTag}, false
		default:
			return fw.Pick(t, []any{"", "  ", "!!", "a b", "toolonglanguage", "@latin", ".UTF-8", ":de", "de-"}), nil, true
		}
	}
	list := func(required bool) langOpt {
		var xs []any
		var ms []mention
		for i := t.IntN(4); i > 0; i-- {
			if t.Chance(40) {
				x, errs, unknown := bad()
				xs = append(xs, x)
				candidates = append(candidates, errs...)
				anyErr = anyErr || unknown
				if !unknown && len(errs) == 0 {
					anyErr = true
				}
				continue
			}
			l := fw.Pick(t, pool)
			if t.Chance(50) {
				l = language.Und
				xs = append(xs, l)
				ms = append(ms, mention{l, required})
				continue
			}
			xs = append(xs, name(l))
			ms = append(ms, mention{l, required})
		}
		o := spreak.WithLanguage(xs...)
		if required {
			o = spreak.WithRequiredLanguage(xs...)
		}
		return langOpt{o, ms, fmt.Sprintf("required=%v %v", required, xs), 0}
	}
	for i := 1 + t.IntN(2); i > 0; i-- {
		los = append(los, list(false))
	}
	if t.Chance(3) {
		los = append(los, list(true))
	}
	// of several source or fallback languages the last one counts, all of them are loaded
	several := func() int { return []int{0, 0, 0, 1, 1, 1, 1, 2}[t.IntN(8)] }
	for n := several(); n > 0; n-- {
		l := fw.Pick(t, pool)
		if t.Chance(60) {
			candidates = append(candidates, &spreak.ErrMissingLanguage{})
			l = language.Und
		}
		los = append(los, langOpt{spreak.WithSourceLanguage(l), []mention{{l, true}}, "source " + l.String(), 's'})
	}
	for n := several(); n > 0; n-- {
		l := fw.Pick(t, pool)
		lo := langOpt{spreak.WithFallbackLanguage(name(l)), []mention{{l, true}}, "fallback " + l.String(), 'f'}
		if t.Chance(40) {
			x, errs, unknown := bad()
			candidates = append(candidates, errs...)
			anyErr = anyErr || unknown
			lo = langOpt{spreak.WithFallbackLanguage(x), nil, fmt.Sprintf("fallback %v", x), 0}
		}
		los = append(los, lo)
	}
	// other invalid options
	if t.Chance(12) {
		anyErr = true
		k := t.IntN(9)
		desc = append(desc, fmt.Sprintf("invalid option %d", k))
		switch k {
		case 0:
			opts = append(opts, nil)
		case 1:
			opts = append(opts, spreak.WithDomainLoader("nil", nil))
		case 2:
			d := "twice"
			ld := loaderFunc(func(l language.Tag, d string) (catalog.Catalog, error) { return &tagCatalog{l, d}, nil })
			opts = append(opts, spreak.WithDomainLoader(d, ld), fw.Pick(t, []spreak.BundleOption{spreak.WithDomainLoader(d, ld), spreak.WithDomainFs(d, fstest.MapFS{}), spreak.WithDomainPath(d, "/nonexistent")}))
		case 3:
			opts = append(opts, spreak.WithPrinter(nil))
		case 4:
			opts = append(opts, spreak.WithPrintFunction(nil))
		case 5:
			opts = append(opts, spreak.WithLanguageMatcherBuilder(nil))
		case 6:
			opts = append(opts, spreak.WithDomainFs("nofs", nil))
		case 7:
			opts = append(opts, spreak.WithFilesystemLoader("nofs"))
		default:
			opts = append(opts, spreak.WithFilesystemLoader("two", spreak.WithFs(fstest.MapFS{}), spreak.WithPath("/nonexistent")))
		}
	}
	for _, lo := range los {
		desc = append(desc, lo.desc)
	}

	// order of all options
	type any1 struct {
		o  spreak.BundleOption
		lo *langOpt
	}
	var all []any1
	for _, o := range opts {
		all = append(all, any1{o, nil})
	}
	for i := range los {
		all = append(all, any1{los[i].o, &los[i]})
	}
	t.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	var final []spreak.BundleOption
	var want []language.Tag
	sort.Strings(domains)
	required := map[language.Tag]bool{}
	mentioned := map[language.Tag]bool{}
	for _, a := range all {
		if a.lo != nil && a.lo.kind == 's' {
			source = a.lo.ms[0].l
		} else if a.lo != nil && a.lo.kind == 'f' {
			fallback = a.lo.ms[0].l
		}
	}
	for _, a := range all {
		final = append(final, a.o)
		if a.lo == nil {
			continue
		}
		for _, m := range a.lo.ms {
			mentioned[m.l] = true
			required[m.l] = required[m.l] || m.required
			n := 0
			for _, d := range domains {
				if r := results[pair{m.l, d}]; r == resCat {
					n++
				}
			}
			if m.l != language.Und && (m.l == source || n > 0) && !slices.Contains(want, m.l) {
				want = append(want, m.l)
			}
		}
	}
	for _, l := range sortedTags(mentioned) {
		if l == language.Und {
			if required[l] {
				candidates = append(candidates, &spreak.ErrMissingLanguage{Language: l})
			}
			continue
		}
		if l == source {
			continue
		}
		n := 0
		for _, d := range domains {
			switch results[pair{l, d}] {
			case resCat:
				n++
			case resNotFound, resWrapped:
				if required[l] {
					candidates = append(candidates, &spreak.ErrNotFound{Language: l})
				}
			case resError:
				candidates = append(candidates, &injected{l, d})
			case resBroken:
				anyErr = true
			}
		}
		if n == 0 && required[l] {
			candidates = append(candidates, &spreak.ErrMissingLanguage{Language: l})
		}
	}
	mustFail := anyErr || len(candidates) > 0
	t.Note("%s\nresults %v\nsource %s fallback %s expected languages %v causes %v (other %v)", strings.Join(desc, "\n"), results, source, fallback, want, candidates, anyErr)

	b, err := spreak.NewBundle(final...)
	t.Eval(1)
	if b != nil && err != nil {
		t.Fail("bundle-with-error", "a bundle was returned together with the error %v", err)
	}
	for p, n := range calls {
		if n > 1 {
			t.Fail("loaded-twice", "the loader was asked %d times for %v", n, p)
		}
		if p.l == source {
			t.Fail("source-loaded", "the loader was asked for the source language")
		}
	}
	if mustFail {
		t.Count("creation fails", 1)
		if err == nil {
			t.Fail("no-error", "NewBundle succeeds, languages %v", b.SupportedLanguages())
		}
		if !anyErr && !causedBy(err, candidates, func(l language.Tag, d string) bool { return results[pair{l, d}] == resError }) {
			t.Fail("cause", "NewBundle returns %T %v, want one of %v", err, err, candidates)
		}
		t.Distinct("fail", fmt.Sprint(desc, results))
		return
	}
	t.Count("creation succeeds", 1)
	t.Distinct("ok", fmt.Sprint(desc, results))
	if err != nil {
		t.Fail("unexpected-error", "NewBundle: %v", err)
	}
	if got := b.SupportedLanguages(); !slices.Equal(got, want) {
		t.Fail("languages", "SupportedLanguages %v, want %v", got, want)
	}
	wantDomains := []string{}
	for _, d := range domains {
		for _, l := range want {
			if l != source && results[pair{l, d}] == resCat {
				wantDomains = append(wantDomains, d)
				break
			}
		}
	}
	got := b.Domains()
	sort.Strings(got)
	if !slices.Equal(got, wantDomains) {
		t.Fail("domains", "Domains %q, want %q", got, wantDomains)
	}
	if b.CanLocalize() != (len(want) > 0 && len(wantDomains) > 0) {
		t.Fail("can-localize", "CanLocalize %v with languages %v and domains %q", b.CanLocalize(), want, wantDomains)
	}
	if exp := fallback; exp != language.Und || source != language.Und {
		if exp == language.Und {
			exp = source
		}
		if loc := spreak.NewLocalizer(b); loc.Language() != exp || loc.HasLocale() {
			t.Fail("fallback", "a localizer without languages has %s (%v), want %s", loc.Language(), loc.HasLocale(), exp)
		}
		t.Count("fallback languages", 1)
	}
	for _, l := range want {
		loc := spreak.NewLocalizer(b, l)
		if loc.Language() != l {
			continue // the matcher prefers another language
		}
		var ds []string
		for _, d := range domains {
			has := l != source && results[pair{l, d}] == resCat
			if has {
				ds = append(ds, d)
			}
			if loc.HasDomain(d) != has {
				t.Fail("has-domain", "%s: HasDomain(%q) = %v, want %v", l, d, loc.HasDomain(d), has)
			}
			t.Eval(1)
			if text := loc.DGet(d, "lang"); has && text != l.String()+"|"+d {
				t.Fail("served", "%s: domain %q delivers %q", l, d, text)
			}
		}
		if x := loc.Domains(); !slices.Equal(x, ds) && len(x)+len(ds) > 0 {
			t.Fail("locale-domains", "%s: Domains %q, want %q", l, x, ds)
		}
		if loc.HasDomain("no such domain") {
			t.Fail("has-domain", "%s: HasDomain of an unknown domain", l)
		}
	}
	for _, l := range want {
		for _, d := range domains {
			if l != source && results[pair{l, d}] == resCat && calls[pair{l, d}] == 0 && len(calls) > 0 {
				t.Count("file system domains", 1)
			}
		}
	}
}

func sortedTags(m map[language.Tag]bool) []language.Tag {
	var out []language.Tag
	for l := range m {
		out = append(out, l)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func causedBy(err error, candidates []error, injectedOK func(language.Tag, string) bool) bool {
	for _, c := range candidates {
		switch x := c.(type) {
		case *injected:
			var in *injected
			if errors.As(err, &in) && injectedOK(in.l, in.d) {
				return true
			}
		case *spreak.ErrNotFound:
			var nf *spreak.ErrNotFound
			if errors.As(err, &nf) && nf.Language == x.Language {
				return true
			}
		case *spreak.ErrMissingLanguage:
			var ml *spreak.ErrMissingLanguage
			if errors.As(err, &ml) && ml.Language == x.Language {
				return true
			}
		default:
			if errors.Is(err, c) {
				return true
			}
		}
	}
	return false
}

func init() {
	register(&fw.Check{
		ID: "C06", Rule: "random lists of loaded languages (regional variants, scripts, deprecated codes, missing ones), with and without source, fallback and custom matchers x random preference lists of tags, Accept-Language strings, malformed strings and values of other types. Non-trivial: counted per distinct (languages, preferences, result)",
		Assumptions: []string{"the default matcher is golang.org/x/text/language.NewMatcher over the loaded languages, Accept-Language strings are parsed by its ParseAcceptLanguage (a malformed string counts as one unusable entry)"},
		Need:        []string{"matched", "not matched", "unusable preferences"}, MinNonTriv: 5000,
		Gens: []fw.Gen{{Name: "matching", Quick: 15000, Thor: 120000, Run: c06case}},
	})
	register(&fw.Check{
		ID: "C07", Rule: "random option lists in random order (domains with memory and file loaders, source, fallback, required and optional languages in several spellings, invalid languages and options) x random loader results (catalog, not found, wrapped not found, other error, broken file). Non-trivial: counted per distinct option list with results",
		Assumptions: []string{"if several things are wrong any of the causes may be reported", "languages whose matcher prefers another loaded language are only checked through SupportedLanguages"},
		Need:        []string{"creation fails", "creation succeeds", "humanize options refused"}, MinNonTriv: 3000,
		Gens: []fw.Gen{{Name: "options", Quick: 60000, Thor: 500000, Run: c07case}, {Name: "humanize", Quick: 300, Thor: 10000, Run: humanizeOptionFails}},
	})
}
