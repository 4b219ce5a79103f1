package main

import (
	"fmt"
	"io/fs"
	"math"
	"regexp"
	"strings"
	"time"
	"unicode/utf8"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/humanize"

	"verifharness/fw"
	"verifharness/oracle"
)

// hcall is a call of a humanize function together with its expected result.
type hcall struct {
	Name string
	Got  func(h *human) string
	Want func(h *human) string
}

// randHumanCall returns a call of any of the functions. The clock stands still at now.
func randHumanCall(t *fw.T, now time.Time) hcall {
	num := func() (rep, any) {
		var r rep
		if t.Chance(2) {
			f := randBig(t)
			if math.IsInf(f, 0) {
				f = math.MaxFloat64
			}
			r = rep{fmt.Sprint(f), f}
		} else {
			r = fw.Pick(t, integerReps(randUint(t)%5000, false))
		}
		v, _ := exactOf(r.V)
		return r, v
	}
	tm := randNear(t, now)
	arg, at := timeArgs(t, tm)
	stamp := at.Format(time.RFC3339Nano)
	switch t.IntN(14) {
	case 0:
		r, v := num()
		return hcall{"Intcomma(" + r.Name + ")", func(h *human) string { return h.H.Intcomma(r.V) }, func(h *human) string { return h.intcomma(v) }}
	case 1:
		r, v := num()
		return hcall{"Intword(" + r.Name + ")", func(h *human) string { return h.H.Intword(r.V) }, func(h *human) string { s, _, _ := h.intword(v); return s }}
	case 2:
		r, v := num()
		return hcall{"Ordinal(" + r.Name + ")", func(h *human) string { return h.H.Ordinal(r.V) }, func(h *human) string { return h.ordinal(v) }}
	case 3:
		r, v := num()
		return hcall{"Apnumber(" + r.Name + ")", func(h *human) string { return h.H.Apnumber(r.V) }, func(h *human) string { return h.apnumber(v) }}
	case 4:
		r, v := num()
		return hcall{"FilesizeFormat(" + r.Name + ")", func(h *human) string { return h.H.FilesizeFormat(r.V) }, func(h *human) string { s, _ := h.filesize(v); return s }}
	case 5:
		return hcall{"NaturalDay(" + stamp + ")", func(h *human) string { return h.H.NaturalDay(arg.V) }, func(h *human) string { return h.naturalDay(at, now) }}
	case 6, 7:
		return hcall{"NaturalTime(" + stamp + ")", func(h *human) string { return h.H.NaturalTime(arg.V) }, func(h *human) string { return h.naturalTime(at, now) }}
	case 8, 9:
		o, opts, desc := randSinceOpts(t)
		to := randLater(t, at)
		if to.IsZero() {
			to = now
		}
		return hcall{"TimeSinceFrom(" + stamp + ", " + to.Format(time.RFC3339Nano) + desc + ")",
			func(h *human) string { return h.H.TimeSinceFrom(arg.V, to, opts...) }, func(h *human) string { return h.since(at, to, o) }}
	case 10:
		f := fw.Pick(t, predefinedNames)
		return hcall{"FormatTime(" + tm.Format(time.RFC3339Nano) + ", " + f + ")", func(h *human) string { return h.H.FormatTime(tm, f) }, func(h *human) string { return h.formatTime(tm, f) }}
	case 11:
		f := string(djangoChars[t.IntN(len(djangoChars))])
		if f == "c" || f == "e" {
			f = "E"
		}
		return hcall{"FormatTime(" + tm.Format(time.RFC3339Nano) + ", " + f + ")", func(h *human) string { return h.H.FormatTime(tm, f) }, func(h *human) string { return h.formatTime(tm, f) }}
	case 12:
		code := fw.Pick(t, fw.SortedKeys(englishNames))
		return hcall{"LanguageNameByCode(" + code + ")", func(h *human) string { return h.H.LanguageNameByCode(code) }, func(h *human) string { return h.tr("", englishNames[code]) }}
	}
	switch t.IntN(3) {
	case 0:
		return hcall{"Now()", func(h *human) string { return h.H.Now() }, func(h *human) string { return h.formatTime(now, humanize.DateTimeFormat) }}
	case 1:
		return hcall{"Date()", func(h *human) string { return h.H.Date() }, func(h *human) string { return h.formatTime(now, humanize.DateFormat) }}
	}
	return hcall{"Time()", func(h *human) string { return h.H.Time() }, func(h *human) string { return h.formatTime(now, humanize.TimeFormat) }}
}

var artefact = regexp.MustCompile(`%[^\s]?|\{|\}|\bnil\b|EXTRA|MISSING|BADINDEX`)

// checkHumanCall compares with the model and looks for traces of broken formatting.
func checkHumanCall(t *fw.T, h *human, c hcall) string {
	t.Eval(1)
	got := c.Got(h)
	if want := c.Want(h); got != want {
		t.Fail("language-output", "%s: %s returns %q, want %q", h.Desc, c.Name, got, want)
	}
	if strings.TrimSpace(got) == "" || !utf8.ValidString(got) || strings.ContainsRune(got, utf8.RuneError) {
		t.Fail("language-empty", "%s: %s returns %q", h.Desc, c.Name, got)
	}
	if !strings.Contains(c.Name, "FormatTime") {
		if m := artefact.FindString(got); m != "" {
			t.Fail("language-artefact", "%s: %s returns %q", h.Desc, c.Name, got)
		}
	}
	return got
}

// distinct reports two arguments with the same text.
type distinct struct {
	t    *fw.T
	h    *human
	what string
	seen map[string]string
	bad  bool
	n    int
}

func newDistinct(t *fw.T, h *human, what string) *distinct {
	return &distinct{t: t, h: h, what: what, seen: map[string]string{}}
}

func (d *distinct) add(arg, out string) {
	d.t.Eval(1)
	if d.bad {
		return
	}
	if o, dup := d.seen[out]; dup && o != arg {
		d.n++
		d.bad = d.n > 20
		d.t.Err(strings.ReplaceAll("same-text-"+d.h.Name+"-"+d.what+":"+o+"="+arg, " ", "-"), "%s: %s of %s and of %s is %q", d.h.Desc, d.what, o, arg, out)
	}
	if strings.TrimSpace(out) == "" || strings.Contains(out, "%") {
		d.bad = true
		d.t.Err(strings.ReplaceAll("bad-text-"+d.h.Name+"-"+d.what, " ", "-"), "%s: %s of %s is %q", d.h.Desc, d.what, arg, out)
	}
	d.seen[out] = arg
}

// tellApart checks that texts of different units, numbers, directions, months, days and times differ.
func tellApart(t *fw.T, h *human) {
	inBubble(time.Duration(t.Int64N(3e18)), func() {
		now := time.Now()
		base := time.Date(1995+t.IntN(10), 1, 1, 0, 0, 0, 0, time.UTC)
		nt, since, until := newDistinct(t, h, "NaturalTime"), newDistinct(t, h, "TimeSince"), newDistinct(t, h, "TimeUntil")
		nt.add("now", h.H.NaturalTime(now))
		for _, u := range []struct {
			name string
			d    time.Duration
			max  int
		}{{"s", time.Second, 59}, {"min", time.Minute, 59}, {"h", time.Hour, 23}, {"d", 24 * time.Hour, 6}, {"w", 7 * 24 * time.Hour, 3}, {"mon", 30 * 24 * time.Hour, 11}, {"y", 366 * 24 * time.Hour, 115}} {
			for i := 1; i <= u.max; i++ {
				d := u.d * time.Duration(i)
				if u.name == "y" {
					// after a leap day has been passed 366 days are a year and a day at most
					d = 0
				}
				arg := itoa(i) + " " + u.name
				if d > 0 {
					nt.add(arg+" ago", h.H.NaturalTime(now.Add(-d)))
					nt.add(arg+" ahead", h.H.NaturalTime(now.Add(d)))
				}
				to := base.Add(d)
				if u.name == "y" {
					to = base.AddDate(i, 0, 0)
				}
				if u.name != "s" {
					since.add(arg, h.H.TimeSinceFrom(base, to, humanize.WithDepth(1)))
					until.add(arg, h.H.TimeUntilFrom(to, base, humanize.WithDepth(1)))
				}
			}
		}
		days := newDistinct(t, h, "NaturalDay")
		for i := -1; i <= 1; i++ {
			days.add(itoa(i)+" days", h.H.NaturalDay(now.AddDate(0, 0, i)))
		}
	})
	ord, ap := newDistinct(t, h, "Ordinal"), newDistinct(t, h, "Apnumber")
	for i := 0; i < 1200; i++ {
		ord.add(itoa(i), h.H.Ordinal(i))
		ap.add(itoa(i), h.H.Apnumber(i))
	}
	word, size := newDistinct(t, h, "Intword"), newDistinct(t, h, "FilesizeFormat")
	for i := 1; i < 102; i++ {
		for _, f := range []float64{1, 2, 3.5, 5} {
			word.add(fmt.Sprintf("%ge%d", f, i), h.H.Intword(f*math.Pow10(i)))
		}
	}
	for e := 0; e < 6; e++ {
		for i := 1; i < 1023; i += 1 + 7*e {
			size.add(fmt.Sprintf("%d*1024^%d", i, e), h.H.FilesizeFormat(float64(i)*math.Pow(1024, float64(e))))
		}
	}
	at := func(year, month, day, minute int) time.Time {
		return time.Date(year, time.Month(month), day, 0, minute, 0, 0, time.UTC)
	}
	for _, f := range "FbNEMn" {
		d := newDistinct(t, h, "format "+string(f))
		for m := 1; m <= 12; m++ {
			d.add("month "+itoa(m), h.H.FormatTime(at(2001, m, 5, 0), string(f)))
		}
	}
	for _, f := range "lDw" {
		d := newDistinct(t, h, "format "+string(f))
		for i := 1; i <= 7; i++ {
			d.add("weekday "+itoa(i), h.H.FormatTime(at(2001, 1, i, 0), string(f)))
		}
	}
	minutes := 24 * 60
	for _, f := range "aA" {
		if f == 'a' && h.H.FormatTime(at(2001, 1, 1, 8*60), "a") == h.H.FormatTime(at(2001, 1, 1, 20*60), "a") {
			// the halves of the day are not told apart, which is reported below; the rest of the time has to be
			minutes = 12*60 - 1
		}
		d := newDistinct(t, h, "format "+string(f))
		d.add("morning", h.H.FormatTime(at(2001, 1, 1, 8*60), string(f)))
		d.add("evening", h.H.FormatTime(at(2001, 1, 1, 20*60), string(f)))
	}
	for _, c := range []struct {
		format string
		n      int
		at     func(i int) time.Time
	}{
		{"P", minutes, func(i int) time.Time { return at(2001, 1, 1, i+1) }},
		{humanize.TimeFormat, minutes, func(i int) time.Time { return at(2001, 1, 1, i) }},
		{humanize.DateFormat, 1500, func(i int) time.Time { return at(2000, 1, 1+i, 0) }},
		{humanize.ShortDateFormat, 1500, func(i int) time.Time { return at(2000, 1, 1+i, 0) }},
		{humanize.DateTimeFormat, 3000, func(i int) time.Time { return at(2000, 1, 1, i*353) }},
		{humanize.ShortDatetimeFormat, 3000, func(i int) time.Time { return at(2000, 1, 1, i*353) }},
		{humanize.YearMonthFormat, 120, func(i int) time.Time { return at(1995, 1+i, 1, 0) }},
		{humanize.MonthDayFormat, 366, func(i int) time.Time { return at(2000, 1, 1+i, 0) }},
	} {
		d := newDistinct(t, h, c.format)
		for i := 0; i < c.n; i++ {
			tm := c.at(i)
			d.add(tm.Format("2006-01-02 15:04"), h.H.FormatTime(tm, c.format))
		}
	}
	// months without day, days without year, dates without time
	same := func(what, format string, a, b time.Time) {
		t.Eval(1)
		if x, y := h.H.FormatTime(a, format), h.H.FormatTime(b, format); x != y {
			t.Err("detail-"+h.Name+"-"+format, "%s: %s of %s is %q and of %s %q, although only the %s differs", h.Desc, format, a, x, b, y, what)
		}
	}
	same("day", humanize.YearMonthFormat, at(2003, 3, 4, 0), at(2003, 3, 11, 0))
	same("year", humanize.MonthDayFormat, at(2003, 3, 4, 0), at(2014, 3, 4, 0))
	same("time", humanize.DateFormat, at(2003, 3, 4, 0), at(2003, 3, 4, 800))
	same("time", humanize.ShortDateFormat, at(2003, 3, 4, 0), at(2003, 3, 4, 800))
	same("day", humanize.TimeFormat, at(2003, 3, 4, 500), at(2004, 5, 6, 500))
	// dates show neither the time zone nor parts of seconds
	zoned := func(zone string, offset int) time.Time {
		return time.Date(2003, 11, 24, 15, 7, 9+offset%50, 1000*offset, time.FixedZone(zone, offset))
	}
	for _, format := range []string{humanize.DateFormat, humanize.ShortDateFormat, humanize.YearMonthFormat, humanize.MonthDayFormat} {
		same("time zone", format, zoned("QQQ", 3617), zoned("ZZZ", -7200))
	}
}

// pluralExceptions are the languages whose header groups the numbers in another way than the CLDR:
// Hebrew and Latvian follow older rules, Welsh counts 8 and 11 apart, Irish counts 0 to the few.
var pluralExceptions = map[string]bool{"he": true, "lv": true, "cy": true, "ga": true}

func init() {
	register(&fw.Check{
		ID: "C27",
		Rule: "every language package is loaded alone, with all and with random others: chosen for its own tag, outputs of all functions equal a model from its PO file, free of formatting traces; " +
			"without a model: texts of different numbers, units, directions, months, days and times differ, and the plural groups of a header agree with the independent CLDR rules",
		Gens: []fw.Gen{
			{Name: "each-language", Quick: len(localeKeys) + 1, Thor: 10 * (len(localeKeys) + 1), Run: func(t *fw.T) {
				name := append([]string{"en"}, localeKeys...)[t.Idx%(len(localeKeys)+1)]
				h := soloHuman(name)
				t.Sample("%s", h.Desc)
				t.Distinct(name)
				t.Count("languages", 1)
				if name != "en" {
					checkPackage(t, name)
				}
				tellApart(t, h)
			}},
			{Name: "combinations", Quick: 400, Thor: 8000, Run: func(t *fw.T) {
				var data []*humanize.LocaleData
				var names []string
				seen := map[string]bool{}
				for i := 1 + t.IntN(fw.Pick(t, []int{2, 5, 12, 40})); i > 0; i-- {
					k := fw.Pick(t, localeKeys)
					if !seen[k] {
						seen[k] = true
						names = append(names, k)
					}
				}
				if seen["ptBR"] && seen["pt"] { // the matcher takes the first of the two for Portuguese
					var rest []string
					for _, k := range names {
						if k != "pt" {
							rest = append(rest, k)
						}
					}
					names = append([]string{"pt"}, rest...)
				}
				for _, k := range names {
					d := localePackages[k]()
					data = append(data, d)
				}
				var opts []humanize.Option
				if t.Chance(2) {
					opts = append(opts, humanize.WithLocale(data...))
				} else {
					for _, d := range data {
						opts = append(opts, humanize.WithLocale(d))
					}
				}
				t.Note("languages %v", names)
				t.Sample("%v", names)
				t.Distinct(strings.Join(names, " "))
				c, err := humanize.New(opts...)
				if err != nil {
					t.Fail("load", "New with %v: %v", names, err)
				}
				inBubble(time.Duration(t.Int64N(3e18)), func() {
					now := time.Now()
					for i := 0; i < 4; i++ {
						name := fw.Pick(t, names)
						if t.Chance(8) {
							name = "en"
						}
						h, solo := humanIn(c, name, "with "+strings.Join(names, " ")), soloHuman(name)
						for j := 0; j < 12; j++ {
							call := randHumanCall(t, now)
							if a, b := checkHumanCall(t, h, call), call.Got(solo); a != b {
								t.Fail("combination", "%s: %s returns %q, and %q if %s is loaded alone", h.Desc, call.Name, a, b, name)
							}
						}
						t.Count("outputs of combinations", 12)
					}
				})
			}},
			{Name: "functions", Quick: 1500, Thor: 60000, Run: func(t *fw.T) {
				h := randHuman(t)
				inBubble(time.Duration(t.Int64N(3e18)), func() {
					now := time.Now()
					for j := 0; j < 20; j++ {
						call := randHumanCall(t, now)
						t.Sample("%s: %s", h.Desc, call.Name)
						t.Distinct(h.Name, call.Name)
						checkHumanCall(t, h, call)
					}
				})
			}},
			{Name: "requested-languages", Quick: 400, Thor: 6000, Run: func(t *fw.T) {
				// as tag, as text, with region, after languages that are not loaded
				name := fw.Pick(t, localeKeys)
				c := allCollection()
				solo := soloHuman(name)
				tag := language.MustParse(localeLanguages[name])
				var args []any
				for i := t.IntN(3); i > 0; i-- {
					args = append(args, fw.Pick(t, []any{"tlh", "", "qaa", language.MustParse("got"), "not a language", "zz-ZZ", "cop"}))
				}
				args = append(args, fw.Pick(t, []any{tag, tag.String(), strings.ToLower(tag.String()), strings.ReplaceAll(tag.String(), "-", "_"), tag.String() + "-u-nu-latn"}))
				for i := t.IntN(3); i > 0; i-- {
					args = append(args, localeLanguages[fw.Pick(t, localeKeys)])
				}
				t.Sample("%v", args)
				t.Distinct(fmt.Sprint(args...))
				h := c.CreateHumanizer(args...)
				for _, f := range predefinedNames {
					t.Eval(1)
					tm := randTime(t)
					if got, want := h.FormatTime(tm, f), solo.formatTime(tm, f); got != want {
						t.Fail("requested", "CreateHumanizer(%q): FormatTime(%s, %s) = %q, want %q of %s", args, tm, f, got, want, name)
					}
				}
				for i := 0; i < 40; i++ {
					t.Eval(1)
					n := int64(t.IntN(2000))
					if got, want := h.Ordinal(n), solo.ordinal(n); got != want {
						t.Fail("requested", "CreateHumanizer(%q): Ordinal(%d) = %q, want %q of %s", args, n, got, want, name)
					}
				}
			}},
			{Name: "other-languages", Quick: 400, Thor: 6000, Run: func(t *fw.T) {
				// languages that are not loaded get English texts and formats
				loaded := fw.Pick(t, []string{"de", "ja", "ar", "ko", "he", "ka", "el", "vi"})
				c := humanize.MustNew(humanize.WithLocale(localePackages[loaded]()))
				args := fw.Pick(t, [][]any{{"tlh"}, {}, {"en"}, {language.English}, {"got", "cop"}, {language.Und}, {""}, {"not a language"}, {"en-US"}, {"en-GB"}, {"sux", "en"}, {[]string{"tlh"}}, {nil}})
				h := englishHuman(c, fmt.Sprintf("%q requested, %s loaded", args, loaded))
				h.H = c.CreateHumanizer(args...)
				t.Sample("%s", h.Desc)
				t.Distinct(h.Desc)
				inBubble(time.Duration(t.Int64N(3e18)), func() {
					now := time.Now()
					for j := 0; j < 12; j++ {
						checkHumanCall(t, h, randHumanCall(t, now))
					}
				})
				t.Count("English instead", 1)
			}},
		},
		MinNonTriv: 10000,
		Need:       []string{"languages", "outputs of combinations", "English instead", "plural groups compared", "formats compared"},
		Assumptions: []string{
			"the words of a language are taken from its PO file; they are checked for being told apart, complete and formatted, not for being good translations",
			"of two equally good languages (pt, pt-BR for pt) the language matcher takes the first",
		},
	})
}

var headerLanguages = map[string]string{"sr@latin": "sr-Latn", "sr_Latn": "sr-Latn", "zh_CN": "zh-Hans", "zh_TW": "zh-Hant", "zh_Hans": "zh-Hans", "zh_Hant": "zh-Hant"}

// checkPackage looks at the data of a language package.
func checkPackage(t *fw.T, name string) {
	want := language.MustParse(localeLanguages[name])
	d := localePackages[name]()
	if d.Lang != want {
		t.Fail("package-language", "package %s is for the language %s, want %s", name, d.Lang, want)
	}
	if d2 := localePackages[name](); d2 == d || d2.Format != nil && d2.Format == d.Format {
		t.Fail("package-shared", "package %s: New returns the same data twice", name)
	}
	var files []string
	fs.WalkDir(d.Fs, ".", func(p string, e fs.DirEntry, err error) error {
		if err == nil && !e.IsDir() {
			files = append(files, p)
		}
		return nil
	})
	if len(files) == 0 {
		t.Fail("package-files", "package %s contains no file", name)
	}
	c := catOf(name)
	lang := c.Lang
	if l := headerLanguages[lang]; l != "" {
		lang = l
	}
	if tag, err := language.Parse(lang); err != nil || tag != want {
		t.Fail("package-catalog", "the catalog of package %s is for the language %q, want %s", name, c.Lang, want)
	}
	if f := d.Format; f != nil {
		t.Count("formats compared", 1)
		if f.FirstDayOfWeek < 0 || f.FirstDayOfWeek > 6 {
			t.Fail("package-week", "package %s: first day of the week %d", name, f.FirstDayOfWeek)
		}
	}
	if c.Plural == nil {
		t.Fail("package-plural", "the catalog of package %s has no plural forms", name)
	}
	set, ok := cldrFor(want)
	if !ok {
		set = nil
	}
	groups := map[string]int64{}
	alone := map[int64][]int64{}
	for _, n := range pluralSamples {
		f, ok := c.Plural.Eval(n)
		if !ok || f < 0 || f >= int64(c.Forms) {
			t.Fail("package-plural", "package %s: plural form of %d is %d of %d", name, n, f, c.Forms)
		}
		if len(alone[f]) < 4 {
			alone[f] = append(alone[f], n)
		}
		if set == nil || n == 0 || pluralExceptions[name] {
			continue
		}
		num, _ := oracle.ParseNum(fmt.Sprint(n))
		cat := set.Category(num)
		if old, seen := groups[cat]; seen && old != f {
			t.Fail("package-plural-groups", "package %s: %d has the plural form %d, other numbers of the CLDR category %s have %d", name, n, f, cat, old)
		}
		groups[cat] = f
		t.Count("plural groups compared", 1)
	}
	for key, texts := range c.E {
		if !strings.Contains(key[1], "%") && len(texts) < 2 {
			continue
		}
		for f, ns := range alone {
			if len(texts) < 2 && f > 0 {
				continue
			}
			if int(f) >= len(texts) || texts[f] == "" {
				all := ""
				for _, x := range texts {
					all += x
				}
				if all != "" && c.Forms > 1 {
					t.Err("package-forms-"+name, "package %s: %q has no text for %d", name, key, ns[0])
				}
				continue
			}
			// a text without number stands for one number (or for 0 and 1)
			if !strings.Contains(texts[f], "%") && (len(ns) > 2 || len(ns) == 2 && ns[1] != 1) {
				t.Err("package-number-"+name, "package %s: %q is %q for the numbers %v", name, key, texts[f], ns)
			}
			if s := artefactInText(texts[f], key[1]); s != "" {
				t.Err("package-verbs-"+name, "package %s: the text %q of %q: %s", name, texts[f], key[1], s)
			}
		}
	}
}

var verb = regexp.MustCompile(`%(\[\d+\])?[a-zA-Z]`)

// artefactInText compares the verbs of a translation with those of its source.
func artefactInText(text, id string) string {
	have := map[string]bool{"%[1]v": true}
	for _, v := range verb.FindAllString(id, -1) {
		have[v] = true
	}
	for _, v := range verb.FindAllString(text, -1) {
		if !have[v] {
			return "verb " + v
		}
	}
	if strings.Count(text, "%") != len(verb.FindAllString(text, -1)) {
		return "incomplete verb"
	}
	return ""
}

var pluralSamples = func() []int64 {
	var s []int64
	for n := int64(0); n < 1200; n++ {
		s = append(s, n)
	}
	for n := int64(2000); n < 1_000_000; n = n*5/4 + 1 {
		s = append(s, n, n/1000*1000, n/10*10+1)
	}
	return append(s, 100000, 1000000, 2000000, 1000001)
}()
