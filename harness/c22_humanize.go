package main

import (
	"errors"
	"fmt"
	"slices"
	"strings"
	"time"
	"unicode"

	"golang.org/x/text/language"
	"golang.org/x/text/message"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/humanize"

	"verifharness/fw"
)

// Printed texts are moved to a private plane, so that every character tells whether it has been printed.
const printedPlane = 0x100000

func movePrinted(s string) string {
	return strings.Map(func(r rune) rune {
		if r < 0x10000 {
			return r + printedPlane
		}
		return r
	}, s)
}

func unmovePrinted(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= printedPlane {
			return r - printedPlane
		}
		return r
	}, s)
}

func hasPrinted(s string) bool {
	return strings.ContainsFunc(s, func(r rune) bool { return r >= printedPlane })
}

// planePrinter prints like the default printer and moves the result.
type planePrinter struct {
	inits  [][]language.Tag
	early  bool
	prints []string
	langs  []language.Tag
	twice  string
}

func (p *planePrinter) Init(languages []language.Tag) {
	p.inits = append(p.inits, slices.Clone(languages))
	p.early = p.early || len(p.prints) > 0
}

func (p *planePrinter) GetPrintFunc(lang language.Tag) spreak.PrintFunc {
	pr := message.NewPrinter(lang)
	return func(str string, vars ...any) string {
		p.prints = append(p.prints, str)
		p.langs = append(p.langs, lang)
		if hasPrinted(str) {
			p.twice = str
		}
		if len(vars) == 0 {
			return movePrinted(str)
		}
		return movePrinted(pr.Sprintf(str, vars...))
	}
}

// humanizeBundleOptions: the functions of a humanizer print with the printer of the bundle options, every text once.
func humanizeBundleOptions(t *fw.T) {
	name := fw.Pick(t, localeKeys)
	p := &planePrinter{}
	missing := 0
	opts := []humanize.Option{
		humanize.WithLocale(localePackages[name]()),
		humanize.WithBundleOption(spreak.WithPrinter(p)),
		humanize.WithBundleOption(spreak.WithMissingTranslationCallback(func(error) { missing++ })),
	}
	if other := fw.Pick(t, localeKeys); t.Chance(3) && !strings.HasPrefix(name, "pt") && !strings.HasPrefix(other, "pt") {
		opts = append(opts, humanize.WithLocale(localePackages[other]()))
	}
	t.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	if t.Chance(3) { // the last printer counts
		opts = append([]humanize.Option{humanize.WithBundleOption(spreak.WithPrintFunction(func(string, ...any) string { return "unused" }))}, opts...)
	}
	t.Note("language %s, %d options", name, len(opts))
	var c *humanize.Collection
	var err error
	if t.Chance(2) {
		c, err = humanize.New(opts...)
	} else {
		c = humanize.MustNew(opts...)
	}
	if err != nil || c == nil {
		t.Fail("humanize-new", "humanize.New with a printer: %v, %v", c, err)
	}
	if len(p.inits) != 1 || p.early {
		t.Fail("humanize-init", "the printer was initialised %d times, used before: %v", len(p.inits), p.early)
	}
	h := humanOf(c, name, "with a printer")
	if tag := h.H.Language(); tag != h.Tag {
		t.Fail("humanize-language", "the humanizer for %s has the language %s", h.Tag, tag)
	}
	inBubble(time.Duration(t.Int64N(3e18)), func() {
		now := time.Now()
		for i := 0; i < 12; i++ {
			call := randHumanCall(t, now)
			p.prints, p.langs = nil, nil
			got := call.Got(h)
			t.Eval(1)
			if p.twice != "" {
				t.Fail("humanize-twice", "%s: %s prints %q, which has been printed before", h.Desc, call.Name, unmovePrinted(p.twice))
			}
			for _, l := range p.langs {
				if l != h.Tag && l != language.English {
					t.Fail("humanize-print-language", "%s: %s prints for %s", h.Desc, call.Name, l)
				}
			}
			if len(p.prints) > 0 != hasPrinted(got) {
				t.Fail("humanize-print", "%s: %s returns %q after %d calls of the printer", h.Desc, call.Name, got, len(p.prints))
			}
			// names of months and days are written in lower or title case after they have been printed
			if want := call.Want(h); unmovePrinted(got) != want && !strings.EqualFold(unmovePrinted(got), want) {
				t.Fail("humanize-text", "%s: %s returns %q (moved back), want %q", h.Desc, call.Name, unmovePrinted(got), want)
			}
			switch fn, _, _ := strings.Cut(call.Name, "("); fn {
			case "LanguageNameByCode", "FilesizeFormat", "TimeSinceFrom":
				if i := strings.IndexFunc(got, func(r rune) bool { return r < printedPlane && (unicode.IsLetter(r) || unicode.IsDigit(r)) }); i >= 0 {
					t.Fail("humanize-not-printed", "%s: %s returns %q, of which the text at %d does not come from the printer", h.Desc, call.Name, unmovePrinted(got), i)
				}
			}
			if len(p.prints) > 0 {
				t.Count("humanize texts printed", 1)
				t.Distinct(name, call.Name)
			}
		}
	})
	t.Sample("%s with a printer: %d texts missing", name, missing)
}

// humanizeOddPrinters: a humanizer works with whatever its printer returns.
func humanizeOddPrinters(t *fw.T) {
	name := fw.Pick(t, localeKeys)
	odd := fw.Pick(t, []string{"", "", " ", "\xff", "\u0301", "%", "%d%s", "\n", "\\", "\x00", strings.Repeat("x", 5000)})
	mode := t.IntN(3)
	printed := 0
	c, err := humanize.New(humanize.WithLocale(localePackages[name]()), humanize.WithBundleOption(spreak.WithPrintFunction(func(s string, vars ...any) string {
		printed++
		switch {
		case mode == 0, mode == 1 && printed%2 == 0:
			return odd
		case len(vars) == 0:
			return s
		}
		return fmt.Sprintf(s, vars...)
	})))
	if err != nil {
		t.Fail("humanize-new", "humanize.New with a print function: %v", err)
	}
	h := humanOf(c, name, "with an odd printer")
	t.Note("%s, the printer returns %q, mode %d", name, odd, mode)
	inBubble(time.Duration(t.Int64N(3e18)), func() {
		now := time.Now()
		for i := 0; i < 20; i++ {
			call := randHumanCall(t, now)
			t.Eval(1)
			if p, stack := fw.Try(func() { call.Got(h) }); p != nil {
				t.Fail("humanize-odd", "%s panics with a printer that returns %q: %v\n%s", call.Name, odd, p, stack)
			}
			t.Distinct(name, odd, mode, call.Name)
		}
		for _, f := range []string{humanize.DateTimeFormat, humanize.TimeFormat, humanize.YearMonthFormat, "a A b c d D e E f F g G h H i I j l L m M n N o O P r s S t T u U w W y Y z Z \\M"} {
			if p, stack := fw.Try(func() { h.H.FormatTime(now, f) }); p != nil {
				t.Fail("humanize-odd", "FormatTime %q panics with a printer that returns %q: %v\n%s", f, odd, p, stack)
			}
		}
	})
	t.Count("odd printers", 1)
	t.Sample("%s with a printer that returns %q", name, clipText(odd, 20))
}

// humanizeOptionFails: a bundle option that fails makes the creation of the collection fail with its cause.
func humanizeOptionFails(t *fw.T) {
	cause := errors.New("cause")
	var bad humanize.Option
	var is error
	k := t.IntN(7)
	ld := loaderFunc(func(language.Tag, string) (catalog.Catalog, error) { return nil, cause })
	switch k {
	case 0:
		bad = humanize.WithBundleOption(nil)
	case 1:
		bad = humanize.WithBundleOption(spreak.WithPrinter(nil))
	case 2:
		bad = humanize.WithBundleOption(spreak.WithDomainLoader("django", ld))
	case 3: // a domain of its own whose files cannot be read
		bad, is = humanize.WithBundleOption(spreak.WithDomainLoader("own", ld)), cause
	case 4:
		bad = humanize.WithBundleOption(spreak.WithRequiredLanguage("tlh"))
	case 5:
		bad = humanize.WithBundleOption(spreak.WithFilesystemLoader("own"))
	default:
		bad = humanize.WithBundleOption(spreak.WithLanguage(3.5))
	}
	opts := []humanize.Option{humanize.WithLocale(localePackages[fw.Pick(t, localeKeys)]()), bad}
	if t.Chance(2) {
		opts = append(opts, humanize.WithBundleOption(spreak.WithPrintFunction(func(s string, _ ...any) string { return s })))
	}
	t.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	t.Note("bad option %d of %d", k, len(opts))
	t.Eval(2)
	c, err := humanize.New(opts...)
	if err == nil || c != nil {
		t.Fail("humanize-accepted", "humanize.New returns %v, %v", c != nil, err)
	}
	if is != nil && !errors.Is(err, is) {
		t.Fail("humanize-cause", "humanize.New fails with %v, the cause is %v", err, is)
	}
	if p, _ := fw.Try(func() { humanize.MustNew(opts...) }); p == nil {
		t.Fail("humanize-must", "MustNew does not panic although New fails with %v", err)
	}
	t.Count("humanize options refused", 1)
	t.Distinct("humanize", k, len(opts))
	t.Sample("humanize.New with bad option %d: %v", k, err)
}
