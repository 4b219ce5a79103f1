package main

import (
	"errors"
	"fmt"
	"slices"
	"strings"

	"golang.org/x/text/language"
	"golang.org/x/text/message"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/localize"

	"verifharness/fw"
)

// aspects of a lookup that a property looks at
const (
	aspText = 1 << iota
	aspErr
	aspCallback
	aspPrint
)

// observe performs one call and compares the chosen aspects with the expectation.
func (w *world) observe(t *fw.T, x *wloc, c wcall, asp int) woutcome {
	exp := w.expect(x, c)
	if !exp.Known {
		t.Count("skipped (fraction and integer rule)", 1)
		return exp
	}
	w.reset()
	got := c.invoke(x)
	t.Eval(1)
	level := [...]string{"language", "fallback", "source text"}[exp.Level]
	where := fmt.Sprintf("%s: %s", x.Desc, c)
	if asp&aspText != 0 && got != exp.Final {
		t.Fail("text-"+strings.ReplaceAll(level, " ", "-"), "%s\nreturns %q\nwant    %q (%s, %s)", where, got, exp.Final, level, exp.Tag)
	}
	if asp&aspCallback != 0 && w.Callback {
		if exp.Bad { // how often an uninterpretable number is reported is not specified, but it is
			if len(w.cbs) == 0 {
				t.Fail("callback-missing", "%s: the callback was not called, want %v", where, exp.Cbs)
			}
			t.Count("uninterpretable numbers", 1)
		} else {
			if len(w.cbs) != len(exp.Cbs) {
				t.Fail("callback-count", "%s: the callback was called %d times %v, want %d: %v", where, len(w.cbs), w.cbs, len(exp.Cbs), exp.Cbs)
			}
			for i, e := range exp.Cbs {
				if msg := e.match(w.cbs[i]); msg != "" {
					t.Fail("callback-error", "%s: callback %d: %s; want %s", where, i, msg, e)
				}
				w.keep(where, w.cbs[i], e)
			}
		}
	}
	if asp&aspPrint != 0 && (w.PrintMode == 1 || w.PrintMode == 2) {
		if len(w.prints) != 1 {
			t.Fail("print-count", "%s: the print function was called %d times: %v", where, len(w.prints), w.prints)
		}
		p := w.prints[0]
		if p.Str != exp.Text || (w.PrintMode == 2 && p.Tag != exp.Tag) {
			t.Fail("print-text", "%s: the print function of %s got %q, want %q of %s", where, p.Tag, p.Str, exp.Text, exp.Tag)
		}
		if !slices.Equal(p.Vars, c.Vars) {
			t.Fail("print-vars", "%s: the print function got the arguments %v", where, p.Vars)
		}
	}
	if asp&aspErr != 0 && c.Via != "" {
		w.checkErr(t, x, c, exp)
	}
	t.Count("answered by "+level, 1)
	if c.Key {
		t.Count("key localizer", 1)
	}
	if c.Via != "" {
		t.Count("localizables", 1)
	}
	t.Distinct(exp.Final, c.String(), exp.Level)
	if exp.Level < 2 {
		t.Sample("%s -> %q (%s)", where, got, level)
	}
	return exp
}

// keptErr is an error that was right when it was reported and has to stay so.
type keptErr struct {
	where string
	err   error
	text  string
	want  wantErr
}

func (w *world) keep(where string, err error, want wantErr) {
	w.kept = append(w.kept, keptErr{where, err, err.Error(), want})
}

func (w *world) recheck(t *fw.T) {
	for _, k := range w.kept {
		if msg := k.want.match(k.err); msg != "" || k.err.Error() != k.text {
			t.Fail("error-changed", "%s: the error %q was reported; after later lookups it is %q (%s)", k.where, k.text, k.err.Error(), msg)
		}
	}
	t.Count("errors examined again after other lookups", len(w.kept))
	w.kept = nil
}

func (w *world) checkErr(t *fw.T, x *wloc, c wcall, exp woutcome) {
	where := fmt.Sprintf("%s: %s", x.Desc, c)
	text, err := x.l.LocalizeWithError(c.localizable())
	if text != exp.Final {
		t.Fail("error-text", "%s: LocalizeWithError returns the text %q, want %q", where, text, exp.Final)
	}
	if exp.Err == nil {
		t.Count("no error", 1)
		if err != nil {
			t.Fail("error-unexpected", "%s: LocalizeWithError returns %v although the language of the localizer has the text", where, err)
		}
	} else {
		t.Count("error "+strings.Join(exp.Err.Kinds, "/"), 1)
		if msg := exp.Err.match(err); msg != "" {
			t.Fail("error-wrong", "%s: LocalizeWithError: %s; want %s", where, msg, exp.Err)
		}
		w.keep(where, err, *exp.Err)
	}
	if s := x.l.Localize(c.localizable()); s != text {
		t.Fail("localize-text", "%s: Localize returns %q, LocalizeWithError %q", where, s, text)
	}
	t.Eval(2)
}

// wrapError is a plain error which wraps another one.
type wrapError struct {
	text  string
	inner error
}

func (e wrapError) Error() string { return e.text }
func (e wrapError) Unwrap() error { return e.inner }

// checkLocalizeError compares LocalizeError of plain errors and localizable errors.
func (w *world) checkLocalizeError(t *fw.T, x *wloc, c wcall) {
	c.Key = false
	var in error
	if t.Chance(2) {
		c.Via, c.D, c.N, c.P, c.F = "LocalizeError", false, false, true, false
		if t.Chance(2) {
			c.ID = fw.Pick(t, w.IDs)
		}
		c.Ctx, c.Vars = w.ErrCtx, nil
		in = errors.New(c.ID)
		switch t.IntN(8) {
		case 0:
			in = fmt.Errorf("%w", in)
		case 1: // what is wrapped has no influence
			in = wrapError{c.ID, wmessage{&wcall{ID: fw.Pick(t, w.IDs), Num: wnum{V: 0}}}}
		case 2:
			in = &localize.Error{Translation: c.ID, Wrapped: wmessage{&wcall{ID: fw.Pick(t, w.IDs), Num: wnum{V: 0}}}}
		}
	} else {
		c.Via = "LocalizeError"
		if c.N {
			c.Num = wnum{Name: "3", V: 3, Text: "3", Abs: 3, Int: true}
		} else {
			c.Num = wnum{V: 0}
		}
		if c.N && c.Plural == "" {
			c.N = false
		}
		in = wmessage{&c}
	}
	exp := w.expect(x, c)
	if !exp.Known {
		return
	}
	t.Eval(1)
	got := x.l.LocalizeError(in)
	where := fmt.Sprintf("%s: LocalizeError(%T %q) %s", x.Desc, in, in, c)
	if exp.Err != nil {
		t.Count("errors without translation", 1)
		if got != in {
			t.Fail("localize-error-unchanged", "%s returns %#v, want the error itself (%s)", where, got, exp.Err)
		}
		return
	}
	t.Count("errors with translation", 1)
	le, ok := got.(*localize.Error)
	if !ok || le == nil {
		t.Fail("localize-error-type", "%s returns %T %v, want a localize.Error with %q", where, got, got, exp.Final)
	}
	if le.Translation != exp.Final || le.Error() != exp.Final || le.String() != exp.Final {
		t.Fail("localize-error-text", "%s returns %q/%q/%q, want %q", where, le.Translation, le.Error(), le.String(), exp.Final)
	}
	if le.Wrapped != in || !errors.Is(got, in) || errors.Unwrap(got) != in {
		t.Fail("localize-error-wrap", "%s does not wrap the error it was given", where)
	}
	t.Distinct("err", exp.Final)
}

func (w *world) run(t *fw.T, calls, asp int, bad bool) {
	for i := 0; i < calls; {
		x := w.localizer(t)
		if x.l.Language() != x.Tag || x.l.HasLocale() != x.Found {
			t.Fail("language", "%s uses %s (found %v), want %s (%v)", x.Desc, x.l.Language(), x.l.HasLocale(), x.Tag, x.Found)
		}
		for k := 0; k < 12; k++ {
			c := w.randCall(t, bad)
			if asp&aspErr != 0 && c.Via == "" && t.Chance(2) {
				c.Via, c.Key = "LocalizeWithError", false
				if c.N {
					n := t.IntN(30)
					c.Num = wnum{Name: fmt.Sprint(n), V: n, Text: fmt.Sprint(n), Abs: int64(n), Int: true}
					if c.Plural == "" {
						c.N = false
					}
				}
				if !c.N {
					c.Num = wnum{V: 1}
				}
			}
			w.observe(t, x, c, asp)
			if asp&aspErr != 0 {
				w.checkLocalizeError(t, x, c)
			}
			i++
		}
	}
	w.recheck(t)
}

func init() {
	needLevels := []string{"answered by language", "answered by fallback", "answered by source text", "key localizer", "localizables"}
	assume := []string{"catalogs are made from a model with PO, MO and JSON files (read by the real decoders) that contain every text with its language, domain, context, id and form", "the language a localizer starts with is the one of golang.org/x/text/language's matcher"}
	register(&fw.Check{
		ID: "C03", Rule: "random bundles (languages, domains, contexts, ids that are similar to each other, source, fallback and required languages, default domains, loaders) x random calls of all 32 lookup methods and Localize. Non-trivial: a lookup whose expectation is known, counted per distinct (call, answer)",
		Assumptions: assume, Need: needLevels, MinNonTriv: 20000,
		Gens: []fw.Gen{
			{Name: "worlds", Quick: 1500, Thor: 60000, Run: func(t *fw.T) {
				w := newWorld(t, worldOpts{Print: 0, Callback: -1, Dead: t.Chance(2)})
				w.run(t, 120, aspText, true)
			}},
			{Name: "single-language", Quick: 600, Thor: 20000, Run: func(t *fw.T) {
				w := newWorld(t, worldOpts{Print: -1, Callback: 0, MaxLangs: 1, Verbs: true})
				w.run(t, 120, aspText, true)
			}},
			{Name: "everything", Quick: 400, Thor: 15000, Run: func(t *fw.T) {
				// every stored text is returned by every method that can ask for it
				w := newWorld(t, worldOpts{Print: 0})
				for _, l := range w.Langs {
					if m, _ := w.match([]any{l}); m != l {
						continue // the matcher prefers another language
					}
					x := &wloc{Tag: l, Found: true, Def: w.Default, Desc: "localizer for " + l.String(), l: spreak.NewLocalizer(w.Bundle, l), kl: spreak.NewKeyLocalizer(w.Bundle, l)}
					for _, d := range liveDomains(w.Cats[l]) {
						cat := w.Cats[l][d]
						for _, ctx := range fw.SortedKeys(cat.Live) {
							for _, id := range fw.SortedKeys(cat.Live[ctx]) {
								for bits := 0; bits < 32; bits++ {
									c := wcall{D: bits&1 > 0, N: bits&2 > 0, P: bits&4 > 0, F: bits&8 > 0, Key: bits&16 > 0, Domain: d, Ctx: ctx, ID: id}
									if !c.P {
										c.Ctx = ""
									}
									if c.N {
										c.Plural = id + "s"
										if c.Key {
											c.Plural = id
										}
										c.Num = randNum(t, false, false)
									}
									if t.Chance(4) {
										w.vary(t, x, &c)
									}
									w.observe(t, x, c, aspText)
								}
							}
						}
					}
				}
			}},
		},
	})
	register(&fw.Check{
		ID: "C04", Rule: "random bundles x localizable messages and errors (with and without own domain, context, plural, arguments), plain errors, nil values. Non-trivial: a lookup whose expectation is known, counted per distinct (call, answer)",
		Assumptions: append(assume, "a context without a single served entry may be reported as missing context or missing message"),
		Need:        []string{"no error", "error domain", "error id", "error translation", "error locale", "errors with translation", "errors without translation"}, MinNonTriv: 10000,
		Gens: []fw.Gen{
			{Name: "worlds", Quick: 1500, Thor: 50000, Run: func(t *fw.T) {
				w := newWorld(t, worldOpts{Print: -1, Callback: -1, Dead: true, Plurals: t.Chance(2), Verbs: t.Chance(3)})
				w.run(t, 96, aspErr, false)
				x := w.localizer(t)
				if err := x.l.LocalizeError(nil); err != nil {
					t.Fail("nil-error", "LocalizeError(nil) = %v", err)
				}
				if s, err := x.l.LocalizeWithError(nil); err == nil || s != x.l.Localize(nil) {
					t.Fail("nil-localizable", "LocalizeWithError(nil) = %q, %v; Localize(nil) = %q", s, err, x.l.Localize(nil))
				}
			}},
		},
	})
	register(&fw.Check{
		ID: "C05", Rule: "random bundles with a recording callback x random lookups, each bundle also without callback. Non-trivial: a lookup whose expectation is known, counted per distinct (call, answer)",
		Assumptions: append(assume, "how often a number that cannot be interpreted is reported is not specified"),
		Need:        append(needLevels, "skipped domains and languages"), MinNonTriv: 10000,
		Gens: []fw.Gen{
			{Name: "worlds", Quick: 1500, Thor: 50000, Run: func(t *fw.T) {
				w := newWorld(t, worldOpts{Print: -1, Callback: 1, Dead: true})
				w.checkCreationCallbacks(t)
				w.run(t, 96, aspCallback|aspText, true)
			}},
			{Name: "no-callback", Quick: 300, Thor: 10000, Run: func(t *fw.T) {
				w := newWorld(t, worldOpts{Print: -1, Callback: 0, Dead: true})
				w.run(t, 96, aspErr|aspText, true)
			}},
		},
	})
	register(&fw.Check{
		ID: "C15", Rule: "random bundles whose catalogs contain fuzzy, obsolete and untranslated entries and forms between normal ones, in random layouts x lookups of every entry. Non-trivial: a lookup whose expectation is known, counted per distinct (call, answer)",
		Assumptions: assume, Need: append(needLevels[:3:3], "dead entries"), MinNonTriv: 5000,
		Gens: []fw.Gen{
			{Name: "worlds", Quick: 2500, Thor: 80000, Run: func(t *fw.T) {
				kinds := []string{"po", "po", "po-cldr", "po-flag", "po-nohdr", "json", "mo"}
				w := newWorld(t, worldOpts{Print: 0, Dead: true, Kinds: kinds, MaxLangs: 3})
				for i := 0; i < 3; i++ {
					x := w.localizer(t)
					for _, d := range w.Domains {
						for _, ctx := range w.Contexts {
							for _, id := range w.IDs {
								c := wcall{D: true, P: true, Domain: d, Ctx: ctx, ID: id}
								if t.Chance(2) {
									c.N, c.Plural, c.Num = true, id+" plural", randNum(t, false, false)
								}
								if cat := w.Cats[x.Tag][d]; cat != nil && strings.Contains(string(cat.Data), "fuzzy") {
									t.Count("dead entries", 1)
								}
								w.vary(t, x, &c)
								w.observe(t, x, c, aspText)
							}
						}
						// the header is no message
						for _, ctx := range []string{"", w.Contexts[0]} {
							w.observe(t, x, wcall{D: true, P: true, Domain: d, Ctx: ctx}, aspText)
							w.observe(t, x, wcall{D: true, P: true, N: true, Domain: d, Ctx: ctx, Num: randNum(t, false, false)}, aspText)
						}
					}
				}
			}},
		},
	})
	register(&fw.Check{
		ID: "C17", Rule: "catalogs of every kind and plural rule source (header, CLDR decoder, CLDR header, no header, JSON), with missing and empty forms x numbers. Non-trivial: plural lookup of an entry with forms, counted per distinct (call, answer)",
		Assumptions: append(assume, "fractions are not checked against rules of Plural-Forms headers"),
		Need:        []string{"answered by language", "plural form absent", "key localizer", "localizables", "numbers not interpretable", "kind po", "kind po-cldr", "kind po-flag", "kind po-nohdr", "kind mo", "kind mo-cldr", "kind mo-flag", "kind mo-nohdr", "kind json"}, MinNonTriv: 20000,
		Gens: []fw.Gen{
			{Name: "worlds", Quick: 2000, Thor: 80000, Run: func(t *fw.T) {
				w := newWorld(t, worldOpts{Print: 0, Dead: t.Chance(2), Plurals: true, MaxLangs: 2, Callback: 1})
				for _, l := range w.Langs {
					if m, _ := w.match([]any{l}); m != l {
						continue // the matcher prefers another language
					}
					x := &wloc{Tag: l, Found: true, Def: w.Default, Desc: "localizer for " + l.String(), l: spreak.NewLocalizer(w.Bundle, l), kl: spreak.NewKeyLocalizer(w.Bundle, l)}
					for _, d := range liveDomains(w.Cats[l]) {
						cat := w.Cats[l][d]
						t.Count("kind "+cat.Kind, 1)
						for _, ctx := range fw.SortedKeys(cat.Live) {
							for _, id := range fw.SortedKeys(cat.Live[ctx]) {
								for k := 0; k < 14; k++ {
									c := wcall{D: true, N: true, P: true, Domain: d, Ctx: ctx, ID: id, Plural: id + "s", Num: randNum(t, cat.Set != nil, true)}
									w.vary(t, x, &c)
									exp := w.observe(t, x, c, aspText|aspCallback)
									text, werr, known := cat.lookup(ctx, id, true, c.Num)
									if !known {
										continue
									}
									got, err := cat.Real.LookupPlural(ctx, id, c.Num.V)
									t.Eval(1)
									switch {
									case werr == nil && (err != nil || got != text):
										t.Fail("form", "%s catalog %s: LookupPlural(%q, %q, %s) = %q, %v; want %q", cat.Kind, l, ctx, id, c.Num.Name, got, err, text)
									case werr != nil:
										if msg := werr.match(err); msg != "" {
											t.Fail("form-error", "%s catalog %s: LookupPlural(%q, %q, %s) = %q: %s; want %s", cat.Kind, l, ctx, id, c.Num.Name, got, msg, werr)
										}
										t.Count("plural form absent", 1)
									}
									if exp.Bad {
										t.Count("numbers not interpretable", 1)
									}
								}
								if text, werr, _ := cat.lookup(ctx, id, false, wnum{}); true {
									got, err := cat.Real.Lookup(ctx, id)
									if werr == nil && (err != nil || got != text) {
										t.Fail("singular", "%s catalog %s: Lookup(%q, %q) = %q, %v; want %q", cat.Kind, l, ctx, id, got, err, text)
									} else if werr != nil && err == nil {
										t.Fail("singular-error", "%s catalog %s: Lookup(%q, %q) = %q without error; want %s", cat.Kind, l, ctx, id, got, werr)
									}
								}
							}
						}
					}
				}
			}},
		},
	})
	register(&fw.Check{
		ID: "C22", Rule: "random bundles with texts full of verbs and percent signs, the default printer, print functions and recording printers x random calls and arguments. Non-trivial: a lookup whose expectation is known, counted per distinct (call, answer)",
		Assumptions: append(assume, "the default formatting is that of golang.org/x/text/message"),
		Need:        append(needLevels, "Print calls", "printers initialised", "humanize texts printed", "odd printers"), MinNonTriv: 10000,
		Gens: []fw.Gen{
			{Name: "worlds", Quick: 1800, Thor: 60000, Run: func(t *fw.T) {
				w := newWorld(t, worldOpts{Print: -1, Callback: -1, Verbs: true})
				if p := w.printer; p != nil {
					t.Count("printers initialised", 1)
					if len(p.inits) != 1 || p.early {
						t.Fail("init", "the printer was initialised %d times, used before: %v", len(p.inits), p.early)
					}
					if !sameTags(p.inits[0], w.Langs) {
						t.Fail("init-languages", "the printer was initialised with %v, want %v", p.inits[0], w.Langs)
					}
				}
				w.run(t, 96, aspText|aspPrint, false)
				for i := 0; i < 6; i++ {
					x := w.localizer(t)
					s := fw.Pick(t, []string{"%d items", "100%", "plain", "%v %v", "", "%s", "%.1f", "%%"})
					vars := fw.Pick(t, worldVars)
					w.reset()
					t.Count("Print calls", 1)
					if got, want := x.l.Print(s, vars...), w.render(x.Tag, s, vars); got != want {
						t.Fail("print", "%s: Print(%q, %v) = %q, want %q", x.Desc, s, vars, got, want)
					}
					if w.PrintMode == 1 || w.PrintMode == 2 {
						if len(w.prints) != 1 || w.prints[0].Str != s || !slices.Equal(w.prints[0].Vars, vars) {
							t.Fail("print-call", "%s: Print(%q, %v) called the print function with %v", x.Desc, s, vars, w.prints)
						}
					}
				}
			}},
			{Name: "humanize", Quick: 600, Thor: 30000, Run: humanizeBundleOptions},
			{Name: "odd-printers", Quick: 300, Thor: 10000, Run: humanizeOddPrinters},
			{Name: "default-printer", Quick: 1500, Thor: 50000, Run: func(t *fw.T) {
				// a printer of its own, with and without initialisation
				tags := []language.Tag{randWorldTag(t), randWorldTag(t)}
				for _, v := range fw.Pick(t, worldVariants) {
					tags = append(tags, language.MustParse(v))
				}
				t.Shuffle(len(tags), func(i, j int) { tags[i], tags[j] = tags[j], tags[i] })
				p := spreak.NewDefaultPrinter()
				if !t.Chance(4) {
					p.Init(tags[:t.IntN(len(tags)+1)])
				}
				for _, tag := range tags {
					f := p.GetPrintFunc(tag)
					for i := 0; i < 6; i++ {
						s := fw.Pick(t, []string{"%d items", "100%", "plain %", "%v %v", "", "%s", "%.1f", "%%", "%[2]d %[1]d", "%5d|", "%!d", "%x"})
						vars := fw.Pick(t, worldVars)
						want := s
						if len(vars) > 0 {
							want = message.NewPrinter(tag).Sprintf(s, vars...)
						}
						t.Eval(1)
						t.Distinct(tag, s, vars)
						if got := f(s, vars...); got != want {
							t.Fail("default-printer", "%s: %q with %v gives %q, want %q", tag, s, vars, got, want)
						}
					}
				}
			}},
		},
	})
}

func sameTags(a, b []language.Tag) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		if !slices.Contains(b, x) {
			return false
		}
	}
	return true
}

// checkCreationCallbacks compares the reports made while the bundle was created.
func (w *world) checkCreationCallbacks(t *fw.T) {
	want := map[string]int{}
	n := 0
	add := func(s string) { want[s]++; n++ }
	done := map[language.Tag]bool{}
	for _, l := range fw.SortedKeys(tagKeys(w.Cats)) {
		tag := language.MustParse(l)
		if done[tag] {
			continue
		}
		done[tag] = true
		for _, d := range w.Domains {
			if w.Cats[tag][d] == nil {
				add("not found " + l)
			}
		}
		if len(liveDomains(w.Cats[tag])) == 0 {
			add("language " + l)
		}
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	got := map[string]int{}
	for _, err := range w.cbs {
		var nf *spreak.ErrNotFound
		var ml *spreak.ErrMissingLanguage
		switch {
		case errors.As(err, &nf):
			got["not found "+nf.Language.String()]++
		case errors.As(err, &ml):
			got["language "+ml.Language.String()]++
		default:
			got[fmt.Sprintf("other %T", err)]++
		}
	}
	t.Count("skipped domains and languages", n)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Fail("creation-callbacks", "while creating the bundle the callback got %v, want %v", got, want)
	}
}

func tagKeys[V any](m map[language.Tag]V) map[string]V {
	out := map[string]V{}
	for k, v := range m {
		out[k.String()] = v
	}
	return out
}
