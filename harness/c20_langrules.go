package main

import (
	"fmt"
	"math"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/poplural"

	"verifharness/fw"
	"verifharness/oracle"
)

// ruleNumbers are dense small numbers, numbers around the limits used by rules and random ones.
func ruleNumbers(t *fw.T, dense int) []int64 {
	var out []int64
	for i := 0; i < dense; i++ {
		out = append(out, int64(i))
	}
	for i := 0; i < 20; i++ {
		k := t.Int64N(90_000_000_000)
		out = append(out, k*100+t.Int64N(22), k*1_000_000, k*100_000+fw.Pick(t, []int64{0, 1, 40000, 60000, 90000}), t.Int64N(math.MaxInt64))
	}
	return append(out, math.MaxInt64, math.MaxInt64-1, math.MaxInt32, 1<<32, 1<<53)
}

// sourceTexts are singular and plural texts that differ.
var sourceTexts = [][2]string{{"one thing", "some things"}, {"one thing", "some things"}, {"file", "files"}, {"day", "day "}, {"Files", "File"}, {"sheep", "Sheep"}, {"a", "b"}, {" ", "\n"}, {"one thing", "z"}, {"z", "one thing"}}

func init() {
	register(&fw.Check{
		ID:          "C20",
		Rule:        "every language with a default gettext rule, then random regional, script and extension variants and languages without a rule x dense and random numbers; source texts of bundles with these source languages. Non-trivial: the rule has at least two forms, counted per distinct (language, number)",
		Assumptions: []string{"the published formulas are the table oracle/gettext.txt which was extracted from the rule list in the sources and reviewed against the gettext and CLDR lists", "source language 'und' is not used"},
		Need:        []string{"variants resolved to a parent", "languages without rules", "source texts plural", "source texts singular", "unmatched localizers"},
		MinNonTriv:  5000,
		Gens: []fw.Gen{
			{Name: "languages", Quick: 2500, Thor: 80000, Run: func(t *fw.T) {
				tag := randTag(t, gettextLangs, t.Idx)
				rule, known := gettextFor(tag)
				t.Note("language %s, formula %s", tag, rule.Text)
				f, found := poplural.ForLanguage(tag)
				if found != known {
					t.Fail("found", "ForLanguage(%s) reports %v, want %v", tag, found, known)
				}
				if f == nil {
					t.Fail("no-rule", "ForLanguage(%s) returned no function", tag)
				}
				if !known {
					t.Count("languages without rules", 1)
				} else if oracle.Gettext[tag.String()] == nil {
					t.Count("variants resolved to a parent", 1)
				}
				dense := 130
				if t.Idx < len(gettextLangs) {
					dense = 1300
				}
				seen := map[int]bool{}
				for _, n := range ruleNumbers(t, dense) {
					w, _ := rule.E.Eval(n)
					t.Eval(1)
					got, err := f(n)
					if err != nil || got != int(w) {
						t.Fail("form", "%s: form of %d is %d, %v; the formula gives %d", tag, n, got, err, w)
					}
					if got < 0 || got >= rule.N {
						t.Fail("range", "%s: form of %d is %d of %d", tag, n, got, rule.N)
					}
					seen[got] = true
					if rule.N > 1 {
						t.Distinct(rule.Langs[0], n)
					}
				}
				t.Count(fmt.Sprintf("rules with %d forms", rule.N), 1)
				if dense > 1000 && len(seen) != rule.N && rule.N < 5 {
					t.Fail("unused-form", "%s: only forms %v of %d were used", tag, seen, rule.N)
				}
			}},
			{Name: "source-texts", Quick: 1200, Thor: 40000, Run: func(t *fw.T) {
				tag := randTag(t, gettextLangs, t.Idx)
				if tag == language.Und {
					return
				}
				rule, _ := gettextFor(tag)
				t.Note("source language %s, formula %s", tag, rule.Text)
				domain := fw.Pick(t, []string{"", "app"})
				opts := []spreak.BundleOption{spreak.WithSourceLanguage(tag), spreak.WithDefaultDomain(domain)}
				other := language.MustParse("tlh")
				withOther := t.Chance(2)
				if withOther { // a language whose catalog knows nothing: source texts are used as a last resort
					cat, err := catalog.NewPoDecoder().Decode(other, domain, []byte("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=1; plural=0;\\n\"\n\nmsgid \"x\"\nmsgstr \"y\"\n"))
					if err != nil {
						t.Fail("decode", "PO catalog: %v", err)
					}
					opts = append(opts, spreak.WithLanguage(other), spreak.WithDomainLoader(domain, loaderFunc(func(l language.Tag, _ string) (catalog.Catalog, error) {
						if l != other {
							return nil, spreak.NewErrNotFound(l, "test", "none")
						}
						return cat, nil
					})))
				}
				b, err := spreak.NewBundle(opts...)
				if err != nil {
					t.Fail("bundle", "NewBundle: %v", err)
				}
				use := fw.Pick(t, []any{tag, tag.String(), "", "xx-YY", other})
				l := spreak.NewLocalizer(b, use)
				if l.Language() != tag {
					t.Count("unmatched localizers", 1)
				}
				for i, n := range ruleNumbers(t, 30) {
					texts := fw.Pick(t, sourceTexts)
					singular, plural := texts[0], texts[1]
					var v any = n
					if n < math.MaxInt32 && t.Chance(3) {
						v = fw.Pick(t, []any{int(n), -int(n), int32(-n), uint32(n), float64(n), -float64(n), fmt.Sprint(n), fmt.Sprint(-n), -n})
					}
					if i == 3 {
						v, n = nil, 0
					}
					want := singular
					if w, _ := rule.E.Eval(n); w != 0 && v != nil {
						want = plural
						t.Count("source texts plural", 1)
					} else {
						t.Count("source texts singular", 1)
					}
					t.Eval(1)
					var got string
					k := t.IntN(5)
					switch k {
					case 0:
						got = l.NGet(singular, plural, v)
					case 1:
						got = l.DNGet(domain, singular, plural, v)
					case 2:
						got = l.NPGet("ctx", singular, plural, v)
					case 3:
						got = l.DNPGet(domain, "ctx", singular, plural, v)
					default:
						got = l.NGetf(singular, plural, v)
					}
					if got != want {
						t.Fail("source-form", "source language %s: method %d with %T(%v) returns %q, want %q", tag, k, v, v, got, want)
					}
					if rule.N > 1 {
						t.Distinct("src", rule.Langs[0], n)
					}
				}
			}},
		},
	})
}
