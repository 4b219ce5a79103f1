package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/catalog/poplural"
	"github.com/vorlif/spreak/humanize"
	"github.com/vorlif/spreak/localize"

	"verifharness/fw"
	"verifharness/oracle"
)

type (
	namedInt    int
	namedInt8   int8
	namedInt64  int64
	namedUint   uint
	namedUint32 uint32
	namedFloat  float64
	namedFl32   float32
	namedString string
	stringerInt int16
	stringerFl  float64
)

func (s stringerInt) String() string { return "three" }
func (s stringerFl) String() string  { return fmt.Sprintf("%.1f degrees", float64(s)) }

type rep struct {
	Name string
	V    any
}

func ptr[T any](v T) *T { return &v }

func addInt[T int | int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64 | uintptr | namedInt | namedInt8 | namedInt64 | namedUint | namedUint32 | stringerInt](out []rep, i int64, u uint64, neg bool) []rep {
	var v T
	if neg {
		v = T(i)
		if v > 0 || int64(v) != i {
			return out
		}
	} else {
		v = T(u)
		if v < 0 || uint64(v) != u {
			return out
		}
	}
	name := fmt.Sprintf("%T(%d)", v, v)
	p := &v
	pp := &p
	var a any = v
	return append(out, rep{name, v}, rep{"*" + name, p}, rep{"**" + name, pp}, rep{"*any " + name, &a})
}

func addFloat[T float32 | float64 | namedFloat | namedFl32 | stringerFl](out []rep, f float64) []rep {
	v := T(f)
	if float64(v) != f {
		return out
	}
	name := fmt.Sprintf("%T(%v)", v, float64(v))
	p := &v
	return append(out, rep{name, v}, rep{"*" + name, p}, rep{"**" + name, &p})
}

func addText(out []rep, s string) []rep {
	n := namedString(s)
	p := &s
	return append(out, rep{fmt.Sprintf("string %q", s), s}, rep{fmt.Sprintf("*string %q", s), p},
		rep{fmt.Sprintf("**string %q", s), &p}, rep{fmt.Sprintf("namedString %q", s), n}, rep{fmt.Sprintf("json.Number %q", s), json.Number(s)})
}

// integerReps are the values that represent the integer (-1)^neg * u without visible fraction digits.
func integerReps(u uint64, neg bool) []rep {
	var out []rep
	i := int64(u)
	if neg {
		i = -i
	}
	if !neg || u < 1<<63 {
		out = addInt[int](out, i, u, neg)
		out = addInt[int8](out, i, u, neg)
		out = addInt[int16](out, i, u, neg)
		out = addInt[int32](out, i, u, neg)
		out = addInt[int64](out, i, u, neg)
		out = addInt[namedInt](out, i, u, neg)
		out = addInt[namedInt8](out, i, u, neg)
		out = addInt[namedInt64](out, i, u, neg)
		out = addInt[stringerInt](out, i, u, neg)
		if u < 1<<62 {
			d := time.Duration(i)
			out = append(out, rep{"Duration", d}, rep{"*Duration", &d})
		}
	}
	if !neg {
		out = addInt[uint](out, i, u, neg)
		out = addInt[uint8](out, i, u, neg)
		out = addInt[uint16](out, i, u, neg)
		out = addInt[uint32](out, i, u, neg)
		out = addInt[uint64](out, i, u, neg)
		out = addInt[uintptr](out, i, u, neg)
		out = addInt[namedUint](out, i, u, neg)
		out = addInt[namedUint32](out, i, u, neg)
	}
	f := new(big.Float).SetUint64(u)
	f64, acc := f.Float64()
	if acc == big.Exact {
		if neg {
			f64 = -f64
		}
		out = addFloat[float64](out, f64)
		out = addFloat[float32](out, f64)
		out = addFloat[namedFloat](out, f64)
		out = addFloat[namedFl32](out, f64)
		out = addFloat[stringerFl](out, f64)
	}
	sign := ""
	if neg {
		sign = "-"
	}
	s := sign + strconv.FormatUint(u, 10)
	out = addText(out, s)
	out = addText(out, sign+"00"+strconv.FormatUint(u, 10))
	if !neg {
		out = addText(out, "+"+s)
	}
	return out
}

// variables hold different numbers one after the other, their addresses stay the same.
type variables struct {
	i  int64
	n  namedInt
	u  uint64
	p  *int64
	s  string
	a  any
	ns namedString
}

func (x *variables) set(v int64) []rep {
	text := strconv.FormatInt(v, 10)
	x.i, x.n, x.u, x.s, x.ns, x.a, x.p = v, namedInt(v), uint64(v), text, namedString(text), v, &x.i
	out := []rep{{"variable int64", &x.i}, {"variable namedInt", &x.n}, {"variable uint64", &x.u}, {"variable *int64", &x.p}, {"variable string", &x.s}, {"variable namedString", &x.ns}, {"variable any", &x.a}}
	for i := range out {
		out[i].Name += " with " + text
	}
	return out
}

// fractionReps represent a number with the given decimal text with fraction digits (no trailing zero).
func fractionReps(s string) []rep {
	var out []rep
	f64, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic(err)
	}
	out = addFloat[float64](out, f64)
	out = addFloat[namedFloat](out, f64)
	out = addFloat[stringerFl](out, f64)
	if f32, err := strconv.ParseFloat(s, 32); err == nil && strconv.FormatFloat(f32, 'f', -1, 32) == s {
		v := float32(f32)
		n := namedFl32(f32)
		p := &v
		out = append(out, rep{fmt.Sprintf("float32(%v)", v), v}, rep{fmt.Sprintf("namedFl32(%v)", v), n}, rep{fmt.Sprintf("**float32(%v)", v), &p})
	}
	return addText(out, s)
}

type emptyStruct struct{}
type numStruct struct{ A, B int }
type errNum int

func (errNum) Error() string { return "e" }

func nonNumbers() []rep {
	var np *int
	var npp **int
	var nf *float64
	var ns *string
	var nstr *numStruct
	var nilAny any
	var nilMap map[string]int
	var nilFunc func()
	var nilChan chan int
	var nilSlice []int
	var nilErr error
	return []rep{
		{"nil", nil}, {"*int nil", np}, {"**int nil", npp}, {"**int to nil", &np}, {"*float64 nil", nf}, {"*string nil", ns}, {"*struct nil", nstr},
		{"*any nil", &nilAny}, {"*error nil", &nilErr}, {"nil map", nilMap}, {"nil func", nilFunc}, {"nil chan", nilChan}, {"nil slice", nilSlice},
		{"empty string", ""}, {"blank", " "}, {"text", "three"}, {"text with number", "3 apples"}, {"hex", "0x10"}, {"underscore", "1_000"}, {"comma", "1,5"}, {"two points", "1.2.3"},
		{"sign", "-"}, {"plus", "+"}, {"point", "."}, {"c", "c"}, {"cc", "1c2c3"}, {"c-", "1c-3"}, {"c huge", "1c99999999"}, {"c999", "1c999"}, {"c only", "c5"}, {"1c", "1c"}, {"e", "e5"}, {"verb", "%d"},
		{"invalid utf8", "\xff\xfe"}, {"NaN text", "NaN"}, {"Inf text", "Inf"}, {"-Inf text", "-Infinity"}, {"overflow", "1e999"}, {"nul", "1\x00"}, {"arabic digits", "٣"},
		{"json.Number empty", json.Number("")}, {"json.Number text", json.Number("x")}, {"namedString", namedString("seven")},
		{"NaN", math.NaN()}, {"Inf", math.Inf(1)}, {"-Inf", math.Inf(-1)}, {"float32 NaN", float32(math.NaN())}, {"float32 Inf", float32(math.Inf(1))}, {"*NaN", ptr(math.NaN())}, {"namedFloat Inf", namedFloat(math.Inf(-1))},
		{"max float", math.MaxFloat64}, {"-max float", -math.MaxFloat64}, {"tiny", math.SmallestNonzeroFloat64}, {"2^63", float64(1 << 63)}, {"2^64", 18446744073709551616.0}, {"-2^63", -float64(1 << 63)},
		{"min int64", int64(math.MinInt64)}, {"min int64 text", "-9223372036854775808"}, {"max uint64", uint64(math.MaxUint64)}, {"2^63 uint", uint64(1) << 63}, {"uint64 text", "18446744073709551615"}, {"100 digits", strings.Repeat("9", 100)},
		{"complex", complex(1, 2)}, {"complex NaN", complex(math.NaN(), 0)}, {"complex64", complex64(complex(3, 0))},
		{"true", true}, {"*bool", ptr(false)}, {"struct", emptyStruct{}}, {"num struct", numStruct{1, 2}}, {"*struct", &numStruct{}}, {"error", errNum(3)}, {"array", [1]int{1}}, {"slice", []int{1}}, {"bytes", []byte("5")}, {"map", map[string]int{"a": 1}},
		{"func", func() {}}, {"chan", make(chan int)}, {"time", time.Now()}, {"*time", &time.Time{}}, {"weekday", time.Monday}, {"big.Int", big.NewInt(5)}, {"big.Float", big.NewFloat(1.5)}, {"language", language.German}, {"fmt.Errorf", fmt.Errorf("x")},
		{"message", &localize.Message{}}, {"long digits", "0." + strings.Repeat("1", 40)}, {"many zeros", "1." + strings.Repeat("0", 5000)},
	}
}

// pluralRulesUnderTest returns evaluators: index, number of forms.
type evalRule struct {
	Name string
	N    int
	Eval func(a any) (int, error)
	CLDR bool
	Big  bool                          // also right above 2^53
	Want func(u uint64) (int, bool)    // gettext: for the absolute integer value
	Cat  func(text string) (int, bool) // cldr: for a decimal text
}

func evalRules(t *fw.T) []evalRule {
	var out []evalRule
	tag := randTag(t, gettextLangs, t.Idx)
	gr, _ := gettextFor(tag)
	f, _ := poplural.ForLanguage(tag)
	want := func(g *oracle.CExpr) func(u uint64) (int, bool) {
		return func(u uint64) (int, bool) {
			if u > math.MaxInt64 {
				return 0, false
			}
			v, ok := g.Eval(int64(u))
			return int(v), ok
		}
	}
	out = append(out, evalRule{Name: "poplural.ForLanguage " + tag.String(), N: gr.N, Eval: f, Want: want(gr.E)})

	text := fw.Pick(t, allPluralForms())
	n, e := oracle.MustPlural(text)
	if t.Chance(2) {
		text = strings.TrimSuffix(text, ";") + " || 0;" // not a built-in
		if n2, e2, err := oracle.ParsePlural(text); err == nil {
			n, e = n2, e2
		} else {
			text = text[:len(text)-6] + ";"
		}
	}
	r, err := poplural.Parse(text)
	if err != nil {
		t.Fail("parse", "poplural.Parse(%q): %v", text, err)
	}
	out = append(out, evalRule{Name: "poplural.Parse " + text, N: n, Eval: r.Evaluate, Want: want(e)})

	ctag := randTag(t, cldrLangs, t.IntN(4*len(cldrLangs)))
	set, _ := cldrFor(ctag)
	rs, _ := cldrplural.ForLanguage(ctag)
	isBig := true // the operand n is a float64
	for _, r := range set.Rules {
		isBig = isBig && !strings.Contains(strings.Join(strings.Fields(r.Text), ""), "n%")
	}
	cat := func(text string) (int, bool) {
		num, ok := oracle.ParseNum(text)
		if !ok {
			return 0, false
		}
		return set.Index(set.Category(num)), true
	}
	idx := func(rs *cldrplural.RuleSet) func(a any) (int, error) {
		return func(a any) (int, error) {
			c, err := rs.Evaluate(a)
			if err != nil {
				return 0, err
			}
			for i, cc := range rs.Categories {
				if cc == c {
					return i, nil
				}
			}
			return -1, nil
		}
	}
	out = append(out, evalRule{Name: "cldrplural.ForLanguage " + ctag.String(), N: len(set.Cats), CLDR: true, Big: isBig, Eval: idx(rs), Cat: cat})
	return out
}

func checkReps(t *fw.T, r evalRule, reps []rep, want int, known bool) {
	for _, x := range reps {
		got, err := r.Eval(x.V)
		t.Eval(1)
		if err != nil {
			t.Fail("rep-error", "%s: %s gives the error %v; the same number in another type does not", r.Name, x.Name, err)
		}
		if !known {
			want, known = got, true
		}
		if got != want {
			t.Fail("rep-form", "%s: %s selects form %d, want %d as for the same number in any other type", r.Name, x.Name, got, want)
		}
		if got < 0 || got >= r.N {
			t.Fail("rep-range", "%s: %s selects form %d of %d", r.Name, x.Name, got, r.N)
		}
	}
}

func randUint(t *fw.T) uint64 {
	switch t.IntN(7) {
	case 0, 1:
		return uint64(t.IntN(25))
	case 2:
		return uint64(t.IntN(300))
	case 3:
		return uint64(t.IntN(100000))
	case 4: // around powers of ten and two
		b := uint64(math.Pow10(t.IntN(16)))
		if t.Chance(2) {
			b = 1 << t.IntN(53)
		}
		return b + uint64(t.IntN(5)) - min(2, b)
	case 5:
		return uint64(1+t.IntN(9)) * uint64(math.Pow10(6*t.IntN(3)))
	default:
		return t.Uint64N(1 << 53)
	}
}

// Localizers whose texts tell the form that was selected.
func taggedBundle(t *fw.T, tag language.Tag, cat catalog.Catalog) *spreak.Localizer {
	b, err := spreak.NewBundle(spreak.WithDomainLoader("", loaderFunc(func(language.Tag, string) (catalog.Catalog, error) { return cat, nil })), spreak.WithRequiredLanguage(tag))
	if err != nil {
		t.Fail("bundle", "NewBundle: %v", err)
	}
	return spreak.NewLocalizer(b, tag)
}

type loaderFunc func(lang language.Tag, domain string) (catalog.Catalog, error)

func (f loaderFunc) Load(lang language.Tag, domain string) (catalog.Catalog, error) {
	return f(lang, domain)
}

func init() {
	register(&fw.Check{
		ID:          "C19",
		Rule:        "random whole numbers and fractions x every integer kind, float kind, named type, pointer depth and text x gettext default rules, parsed headers, CLDR rules, localizers over PO/JSON catalogs and humanize number functions; a list of values that are no numbers x all of these. Non-trivial: a number with at least two representations, counted per distinct (rule, number)",
		Assumptions: []string{"whole numbers up to 2^53 (exactly representable in every consumer) for CLDR and humanize, up to 2^63-1 for gettext rules", "fractions with at most 7 significant digits for float32, 15 for float64"},
		Need:        []string{"negative numbers", "floats next to a limit", "variables with new numbers", "fractions", "fractions without integer digits", "large numbers with CLDR rules", "values that are no numbers", "localizer forms", "humanize"},
		MinNonTriv:  2000,
		Gens: []fw.Gen{
			{Name: "rules", Quick: 2500, Thor: 100000, Run: func(t *fw.T) {
				var vs variables
				for _, r := range evalRules(t) {
					for i := 0; i < 6; i++ {
						u := randUint(t)
						if !r.CLDR && t.Chance(6) {
							u = uint64(t.Int64N(math.MaxInt64))
							if t.Chance(3) {
								u = math.MaxInt64 - uint64(t.IntN(3))
							}
						} else if r.CLDR && r.Big && t.Chance(4) {
							u = 1<<53 + uint64(t.Int64N(1<<fw.Pick(t, []int{3, 10, 60})))
							if t.Chance(4) {
								u = math.MaxInt64 - uint64(t.Int64N(1<<fw.Pick(t, []int{2, 9, 12})))
							}
							t.Count("large numbers with CLDR rules", 1)
						}
						t.Distinct(r.Name, u)
						var want int
						known := false
						if r.CLDR {
							want, known = r.Cat(strconv.FormatUint(u, 10))
						} else {
							want, known = r.Want(u)
						}
						if !known {
							continue
						}
						checkReps(t, r, integerReps(u, false), want, true)
						if u <= math.MaxInt64 {
							checkReps(t, r, vs.set(int64(u)), want, true)
							t.Count("variables with new numbers", 1)
						}
						checkReps(t, r, integerReps(u, true), want, true)
						t.Count("negative numbers", 1)
						if !r.CLDR { // visible fraction digits do not matter
							if u < 1<<53 {
								checkReps(t, r, addText(addText(nil, strconv.FormatUint(u, 10)+".0"), strconv.FormatUint(u, 10)+".00"), want, true)
							}
							continue
						}
						s := strconv.FormatUint(u, 10)
						var dec []rep
						for _, z := range []string{".0", ".00", ".50"} {
							w, ok := r.Cat(s + z)
							if ok && (len(s) < 12 || r.Big && z != ".50") {
								dec = addText(nil, s+z)
								checkReps(t, r, dec, w, true)
								checkReps(t, r, addText(nil, "-"+s+z), w, true)
							}
						}
					}
					for i := 0; i < 3 && !r.CLDR; i++ {
						// floats next to the limits between two whole numbers
						v := float64(t.IntN(fw.Pick(t, []int{4, 200, 100000}))) + float64(t.IntN(2))/2
						if t.Chance(2) {
							v = float64(math.Nextafter32(float32(v), float32(t.IntN(2)*1000000)))
						} else {
							v = math.Nextafter(v, float64(t.IntN(2)*1000000))
						}
						v = math.Abs(v)
						text := strconv.FormatFloat(v, 'f', -1, 64)
						reps := []rep{{"string " + text, text}, {"negative string " + text, "-" + text}}
						for _, x := range []float64{v, -v} {
							reps = addFloat[float64](reps, x)
							reps = addFloat[float32](reps, x)
							reps = addFloat[namedFloat](reps, x)
							reps = addFloat[namedFl32](reps, x)
							reps = addFloat[stringerFl](reps, x)
						}
						checkReps(t, r, reps, 0, false)
						t.Count("floats next to a limit", 1)
					}
					for i := 0; i < 4; i++ {
						s := fmt.Sprintf("%d.%0*d", t.IntN(fw.Pick(t, []int{3, 15, 120, 9999})), 1+t.IntN(2), t.IntN(9)+1)
						s = strings.TrimRight(s, "0")
						if strings.HasSuffix(s, ".") {
							continue
						}
						t.Count("fractions", 1)
						want, known := 0, false
						if r.CLDR {
							want, known = r.Cat(s)
						}
						reps := append(fractionReps(s), fractionReps("-"+s)...)
						if strings.HasPrefix(s, "0.") {
							t.Count("fractions without integer digits", 1)
							reps = addText(addText(reps, s[1:]), "-"+s[1:])
						}
						checkReps(t, r, reps, want, known)
						t.Distinct(r.Name, s)
					}
				}
			}},
			{Name: "non-numbers", Quick: 400, Thor: 8000, Run: func(t *fw.T) {
				for _, r := range evalRules(t) {
					for _, x := range nonNumbers() {
						t.Note("%s: %s", r.Name, x.Name)
						t.Eval(1)
						got, err := r.Eval(x.V)
						if err == nil && (got < 0 || got >= r.N) {
							t.Fail("non-number-range", "%s: %s selects form %d of %d without an error", r.Name, x.Name, got, r.N)
						}
						t.Count("values that are no numbers", 1)
					}
				}
			}},
			{Name: "localizer", Quick: 700, Thor: 30000, Run: func(t *fw.T) {
				// catalogs with a plural header (PO) or CLDR rules (JSON); every form is a different text
				var l *spreak.Localizer
				var want func(u uint64) (int, bool)
				var n int
				if t.Chance(2) {
					text := fw.Pick(t, allPluralForms())
					nn, e := oracle.MustPlural(text)
					n = nn
					var b strings.Builder
					fmt.Fprintf(&b, "msgid \"\"\nmsgstr \"Plural-Forms: %s\\n\"\n\nmsgid \"one\"\nmsgid_plural \"many\"\n", text)
					for i := 0; i < n; i++ {
						fmt.Fprintf(&b, "msgstr[%d] \"form%d\"\n", i, i)
					}
					tag := randTag(t, gettextLangs, t.IntN(2*len(gettextLangs)))
					if tag == language.Und {
						tag = language.German
					}
					t.Note("language %s, header %s", tag, text)
					cat, err := catalog.NewPoDecoder().Decode(tag, "", []byte(b.String()))
					if err != nil {
						t.Fail("decode", "PO catalog: %v", err)
					}
					l = taggedBundle(t, tag, cat)
					want = func(u uint64) (int, bool) {
						if u > math.MaxInt64 {
							return 0, false
						}
						v, ok := e.Eval(int64(u))
						return int(v), ok && v < int64(n)
					}
				} else {
					tag := randTag(t, cldrLangs, t.IntN(len(cldrLangs)))
					set, _ := cldrFor(tag)
					n = len(set.Cats)
					if n == 1 || tag == language.Und {
						return
					}
					m := map[string]string{}
					for i, c := range set.Cats {
						m[strings.ToLower(c)] = fmt.Sprintf("form%d", i)
					}
					data, _ := json.Marshal(map[string]any{"one": m})
					t.Note("language %s, JSON %s", tag, data)
					cat, err := catalog.NewJSONDecoder().Decode(tag, "", data)
					if err != nil {
						t.Fail("decode", "JSON catalog: %v", err)
					}
					l = taggedBundle(t, tag, cat)
					want = func(u uint64) (int, bool) {
						num, ok := oracle.ParseNum(strconv.FormatUint(u, 10))
						if !ok {
							return 0, false
						}
						return set.Index(set.Category(num)), true
					}
				}
				kl := &spreak.KeyLocalizer{Localizer: l}
				for i := 0; i < 6; i++ {
					u := randUint(t)
					w, ok := want(u)
					if !ok {
						continue
					}
					exp := fmt.Sprintf("form%d", w)
					for _, x := range append(integerReps(u, false), integerReps(u, true)...) {
						t.Eval(4)
						for k, got := range []string{l.NGet("one", "many", x.V), kl.NGet("one", x.V), l.NGetf("one", "many", x.V), l.DNPGet("", "", "one", "many", x.V)} {
							if got != exp {
								t.Fail("localizer-form", "lookup %d with %s returns %q, want %q", k, x.Name, got, exp)
							}
						}
					}
					t.Count("localizer forms", 1)
				}
				if t.Idx%20 == 0 {
					for _, x := range nonNumbers() {
						t.Note("value %s", x.Name)
						got := l.NGet("one", "many", x.V)
						ok := got == "one" || got == "many"
						for i := 0; i < n; i++ {
							ok = ok || got == fmt.Sprintf("form%d", i)
						}
						if !ok {
							t.Fail("localizer-non-number", "value %s gives the text %q", x.Name, got)
						}
					}
				}
			}},
			{Name: "humanize", Quick: 600, Thor: 20000, Run: func(t *fw.T) {
				h := englishHumanizer()
				fns := map[string]func(any) string{"Apnumber": h.Apnumber, "Intword": h.Intword, "Intcomma": h.Intcomma, "Ordinal": h.Ordinal, "FilesizeFormat": h.FilesizeFormat}
				for i := 0; i < 4; i++ {
					u := randUint(t)
					for _, neg := range []bool{false, true} {
						reps := integerReps(u, neg)
						for _, name := range fw.SortedKeys(fns) {
							ref := fns[name](reps[0].V)
							for _, x := range reps {
								t.Eval(1)
								if got := fns[name](x.V); got != ref {
									t.Fail("humanize-rep", "%s(%s) = %q but %s gives %q", name, x.Name, got, reps[0].Name, ref)
								}
							}
						}
					}
					s := strings.TrimRight(fmt.Sprintf("%d.%d", t.IntN(3000000), 1+t.IntN(7)*125), "0")
					reps := fractionReps(s)
					for _, name := range fw.SortedKeys(fns) {
						ref := fns[name](reps[0].V)
						for _, x := range reps {
							if strings.Contains(x.Name, "32(") && float64(float32(reps[0].V.(float64))) != reps[0].V.(float64) {
								continue // another value
							}
							t.Eval(1)
							if got := fns[name](x.V); got != ref {
								t.Fail("humanize-rep", "%s(%s) = %q but %s gives %q", name, x.Name, got, reps[0].Name, ref)
							}
						}
					}
					t.Count("humanize", 1)
				}
				if t.Idx%20 == 0 {
					for _, x := range nonNumbers() {
						for _, name := range fw.SortedKeys(fns) {
							t.Note("%s(%s)", name, x.Name)
							if got := fns[name](x.V); got == "" {
								t.Fail("humanize-empty", "%s(%s) is empty", name, x.Name)
							}
						}
					}
				}
			}},
		},
	})
}

func englishHumanizer() *humanize.Humanizer {
	c, err := humanize.New()
	if err != nil {
		panic(err)
	}
	return c.CreateHumanizer(language.English)
}
