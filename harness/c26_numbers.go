package main

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"time"

	"golang.org/x/text/number"

	"github.com/vorlif/spreak/humanize"

	"verifharness/fw"
)

// exactOf is the number that a value stands for: int64, uint64 or float64.
func exactOf(v any) (any, bool) {
	rv := reflect.ValueOf(v)
	for rv.IsValid() && (rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface) {
		rv = rv.Elem()
	}
	if !rv.IsValid() {
		return nil, false
	}
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return rv.Int(), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if u := rv.Uint(); u > math.MaxInt64 {
			return u, true
		}
		return int64(rv.Uint()), true
	case reflect.Float32, reflect.Float64:
		return rv.Float(), true
	case reflect.Complex64, reflect.Complex128:
		return real(rv.Complex()), true
	case reflect.String:
		s := rv.String()
		digits := strings.TrimPrefix(strings.TrimPrefix(s, "+"), "-")
		if digits != "" && strings.Trim(digits, "0123456789") == "" && len(s)-len(digits) <= 1 {
			b, _ := new(big.Int).SetString(s, 10)
			if b.IsInt64() {
				return b.Int64(), true
			}
			if b.IsUint64() && s[0] != '+' {
				return b.Uint64(), true
			}
		}
		f, err := strconv.ParseFloat(s, 64)
		return f, err == nil
	}
	return nil, false
}

// ratOf is the exact value, nil for infinities and NaN.
func ratOf(v any) *big.Rat {
	switch n := v.(type) {
	case int64:
		return new(big.Rat).SetInt64(n)
	case uint64:
		return new(big.Rat).SetInt(new(big.Int).SetUint64(n))
	case float64:
		return new(big.Rat).SetFloat64(n)
	}
	return nil
}

var digitZeros = []rune{'0', 0x660, 0x6f0, 0x966, 0x9e6, 0xa66, 0xae6, 0xb66, 0xbe6, 0xc66, 0xce6, 0xd66, 0xe50, 0xed0, 0xf20, 0x1040, 0x17e0, 0x1810, 0xff10}

func digitOf(r rune) (int, bool) {
	for _, z := range digitZeros {
		if r >= z && r < z+10 {
			return int(r - z), true
		}
	}
	return 0, false
}

// decimalPoint is the decimal separator of the language.
func (h *human) decimalPoint() rune {
	for _, r := range h.pr.Sprint(number.Decimal(1.5)) {
		if _, ok := digitOf(r); !ok {
			return r
		}
	}
	panic("no decimal separator: " + h.Name)
}

// parseNumber reads a formatted number: sign, digits, grouping, fraction.
func (h *human) parseNumber(s string) (*big.Rat, error) {
	point := h.decimalPoint()
	neg, digits, frac, seenPoint := false, "", 0, false
	for i, r := range s {
		d, isDigit := digitOf(r)
		switch {
		case isDigit:
			digits += string(rune('0' + d))
			if seenPoint {
				frac++
			}
		case digits == "" && (r == '-' || r == '−'):
			if neg {
				return nil, fmt.Errorf("two signs in %q", s)
			}
			neg = true
		case r == 0x200e || r == 0x200f || r == 0x61c:
		case r == point && digits != "" && !seenPoint:
			seenPoint = true
		case digits != "" && !seenPoint && strings.ContainsRune(",.’' \u00a0\u202f\u066c", r):
		default:
			return nil, fmt.Errorf("%q at %d in %q", r, i, s)
		}
	}
	if digits == "" {
		return nil, fmt.Errorf("no digits in %q", s)
	}
	n, _ := new(big.Int).SetString(digits, 10)
	den := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(frac)), nil)
	v := new(big.Rat).SetFrac(n, den)
	if neg {
		v.Neg(v)
	}
	return v, nil
}

// numberIn returns the part of a text from the first to the last digit.
func numberIn(s string) string {
	start, end := -1, -1
	for i, r := range s {
		if _, ok := digitOf(r); ok {
			if start < 0 {
				start = i
			}
			end = i + len(string(r))
		}
	}
	if start < 0 {
		return ""
	}
	return s[start:end]
}

func ratDist(a, b *big.Rat) *big.Rat { d := new(big.Rat).Sub(a, b); return d.Abs(d) }

// shortSlack is the difference of a number and its shortest decimal text.
func shortSlack(v any) *big.Rat {
	f, ok := v.(float64)
	if !ok {
		return new(big.Rat)
	}
	s, _ := new(big.Rat).SetString(strconv.FormatFloat(f, 'f', -1, 64))
	return ratDist(s, ratOf(f))
}

func (h *human) intcomma(v any) string {
	return h.pr.Sprint(number.Decimal(v, number.MaxFractionDigits(6)))
}

var intwordUnits = []struct {
	exp  int
	name string
}{{6, "million"}, {9, "billion"}, {12, "trillion"}, {15, "quadrillion"}, {18, "quintillion"}, {21, "sextillion"}, {24, "septillion"},
	{27, "octillion"}, {30, "nonillion"}, {33, "decillion"}, {100, "googol"}}

func floatOf(v any) float64 {
	switch n := v.(type) {
	case int64:
		return float64(n)
	case uint64:
		return float64(n)
	}
	return v.(float64)
}

// intword returns the text, the number in it and the exponent of the unit, 0 without unit.
func (h *human) intword(v any) (text, num string, exp int) {
	f := floatOf(v)
	abs := math.Abs(f)
	if abs < 1e6 || math.IsNaN(f) || abs >= 1e103 {
		return h.intcomma(v), "", 0
	}
	u := intwordUnits[0]
	for _, x := range intwordUnits {
		if abs >= math.Pow10(x.exp) {
			u = x
		}
	}
	q := f / math.Pow10(u.exp)
	n, _ := new(big.Float).SetFloat64(math.Ceil(math.Abs(q))).Int(nil)
	if lim := big.NewInt(1e15); n.Cmp(lim) > 0 {
		n = n.Add(lim, new(big.Int).Mod(n, lim))
	}
	id := "%[1]s " + u.name
	num = h.pr.Sprintf("%.1f", q)
	return h.ntr("", id, id, n.Int64(), num), num, u.exp
}

var apNames = []string{"", "one", "two", "three", "four", "five", "six", "seven", "eight", "nine"}

// whole removes the fraction.
func whole(v any) any {
	if f, ok := v.(float64); ok {
		if f >= -1<<63 && f < 1<<63 {
			return int64(f)
		}
		return math.Trunc(f)
	}
	return v
}

func (h *human) apnumber(v any) string {
	v = whole(v)
	if n, ok := v.(int64); ok && n >= 1 && n <= 9 {
		return h.tr("", apNames[n])
	}
	if f, ok := v.(float64); ok {
		return h.pr.Sprint(number.Decimal(f))
	}
	return h.pr.Sprintf("%d", v)
}

func (h *human) ordinal(v any) string {
	if f, ok := v.(float64); ok && f < 0 && f > -1 {
		return "0"
	}
	v = whole(v)
	var last uint64
	switch n := v.(type) {
	case int64:
		if n < 0 {
			return strconv.FormatInt(n, 10)
		}
		last = uint64(n % 100)
	case uint64:
		last = n % 100
	case float64:
		return strconv.FormatFloat(n, 'f', -1, 64)
	}
	if last >= 11 && last <= 13 {
		return h.tr("ordinal 11, 12, 13", "%vth", v)
	}
	return h.tr(fmt.Sprintf("ordinal %d", last%10), "%v"+englishSuffix(last), v)
}

func englishSuffix(last uint64) string {
	if last/10 != 1 {
		switch last % 10 {
		case 1:
			return "st"
		case 2:
			return "nd"
		case 3:
			return "rd"
		}
	}
	return "th"
}

// filesize returns the text and the exponent of the unit (base 1024).
func (h *human) filesize(v any) (string, int) {
	f := math.Trunc(floatOf(v))
	sign := ""
	if f < 0 {
		f, sign = -f, "-"
	}
	if f < 1024 {
		return sign + h.ntr("", "%[1]d byte", "%[1]d bytes", int64(f), int64(f)), 0
	}
	exp := 1
	for exp < 5 && f >= math.Pow(1024, float64(exp+1)) {
		exp++
	}
	q := f / math.Pow(1024, float64(exp))
	return sign + h.tr("", "%s "+string(" KMGTP"[exp])+"B", h.pr.Sprint(number.Decimal(q, number.MaxFractionDigits(1)))), exp
}

func finite(v any) bool {
	f, ok := v.(float64)
	return !ok || !math.IsNaN(f) && !math.IsInf(f, 0)
}

// checkNumber compares the five number functions with the model and, without
// relying on the number formatting, the displayed digits with the value.
func checkNumber(t *fw.T, h *human, r rep) {
	v, ok := exactOf(r.V)
	if !ok {
		panic("not a number: " + r.Name)
	}
	where := h.Desc + ": " + r.Name
	exact := ratOf(v)
	near := func(fn, text string, unit *big.Rat, tol *big.Rat, negate bool) {
		n, err := h.parseNumber(text)
		if err != nil {
			t.Fail(fn+"-digits", "%s: %s shows no number: %v", where, fn, err)
		}
		want := new(big.Rat).Quo(exact, unit)
		if negate {
			want.Abs(want)
		}
		slack := new(big.Rat).Quo(shortSlack(v), unit)
		if d := ratDist(n, want); d.Cmp(new(big.Rat).Add(tol, slack)) > 0 {
			t.Fail(fn+"-digits", "%s: %s shows %s for %s, which is more than %s off", where, fn, n.FloatString(8), want.FloatString(8), tol.FloatString(8))
		}
	}
	one := big.NewRat(1, 1)
	t.Eval(5)

	got := h.H.Intcomma(r.V)
	if want := h.intcomma(v); got != want {
		t.Fail("Intcomma", "%s: Intcomma returns %q, want %q", where, got, want)
	}
	if exact != nil {
		near("Intcomma", got, one, big.NewRat(1, 2_000_000), false)
		if h.Name == "en" {
			if i, _, _ := strings.Cut(strings.TrimPrefix(got, "-"), "."); i != groupThree(strings.ReplaceAll(i, ",", "")) {
				t.Fail("Intcomma-groups", "%s: Intcomma returns %q", where, got)
			}
		}
	}

	got = h.H.Intword(r.V)
	want, num, exp := h.intword(v)
	if got != want {
		t.Fail("Intword", "%s: Intword returns %q, want %q", where, got, want)
	}
	if exact != nil && exp > 0 {
		t.Count("Intword "+itoa(exp), 1)
		unit := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(exp)), nil))
		tol := big.NewRat(5, 100)
		// the quotient is a floating point number
		q, _ := new(big.Rat).Quo(exact, unit).Float64()
		tol.Add(tol, new(big.Rat).SetFloat64(math.Abs(q)*1e-15))
		near("Intword", num, unit, tol, false)
	}

	got = h.H.Ordinal(r.V)
	if want := h.ordinal(v); got != want {
		t.Fail("Ordinal", "%s: Ordinal returns %q, want %q", where, got, want)
	}
	if n, isInt := whole(v).(int64); isInt && n >= 0 && floatOf(v) >= 0 && h.Name == "en" {
		if e := groupThree(strconv.FormatInt(n, 10)) + englishSuffix(uint64(n)%100); got != e {
			t.Fail("Ordinal-digits", "%s: Ordinal returns %q, want %q", where, got, e)
		}
	}

	got = h.H.Apnumber(r.V)
	if want := h.apnumber(v); got != want {
		t.Fail("Apnumber", "%s: Apnumber returns %q, want %q", where, got, want)
	}
	if n, isInt := whole(v).(int64); exact != nil && !(isInt && n >= 1 && n <= 9) {
		tr := new(big.Rat)
		if isInt {
			tr.SetInt64(n)
		} else {
			tr.Set(exact)
		}
		if d, err := h.parseNumber(got); err != nil || ratDist(d, tr).Cmp(shortSlack(v)) > 0 {
			t.Fail("Apnumber-digits", "%s: Apnumber returns %q (%v)", where, got, err)
		}
	} else if exact != nil {
		t.Count("Apnumber spelled out", 1)
	}

	got = h.H.FilesizeFormat(r.V)
	if !finite(v) {
		if want := errText(r.V); got != want {
			t.Fail("FilesizeFormat", "%s: FilesizeFormat returns %q, want %q", where, got, want)
		}
		return
	}
	want, exp = h.filesize(v)
	if got != want {
		t.Fail("FilesizeFormat", "%s: FilesizeFormat returns %q, want %q", where, got, want)
	}
	t.Count("FilesizeFormat 1024^"+itoa(exp), 1)
	if exp > 0 {
		unit := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(1024), big.NewInt(int64(exp)), nil))
		q, _ := new(big.Rat).Quo(exact, unit).Float64()
		tol := new(big.Rat).Add(big.NewRat(5, 100), new(big.Rat).SetFloat64(math.Abs(q)*1e-15))
		tol.Add(tol, new(big.Rat).Quo(one, unit))
		near("FilesizeFormat", numberIn(got), unit, tol, true)
	}
}

func groupThree(digits string) string {
	out := ""
	for len(digits) > 3 {
		out = "," + digits[len(digits)-3:] + out
		digits = digits[:len(digits)-3]
	}
	return digits + out
}

// randFloat returns floats over the whole range, with emphasis on unit boundaries.
func randBig(t *fw.T) float64 {
	var f float64
	switch t.IntN(6) {
	case 0:
		f = math.Pow10(t.IntN(109))
	case 1:
		f = float64(1+t.IntN(9999)) * math.Pow10(t.IntN(105)-3)
	case 2:
		f = math.Pow(1024, float64(t.IntN(8))) * float64(1+t.IntN(1025))
	case 3:
		f = (1 + float64(t.IntN(40))/20) * math.Pow10(3*t.IntN(12))
	case 4:
		f = t.Float64() * math.Pow10(t.IntN(330)-15)
	default:
		f = math.Float64frombits(t.Uint64() &^ (1 << 63))
		if math.IsNaN(f) || math.IsInf(f, 0) {
			f = 1
		}
	}
	switch t.IntN(6) {
	case 0:
		f = math.Nextafter(f, 0)
	case 1:
		f = math.Nextafter(f, math.Inf(1))
	case 2:
		f = math.Nextafter(f*0.9995, 0)
	}
	if t.Chance(3) {
		f = -f
	}
	return f
}

var numericText = map[string]bool{"NaN": true, "Inf": true, "-Inf": true, "float32 NaN": true, "float32 Inf": true, "*NaN": true, "namedFloat Inf": true,
	"NaN text": true, "Inf text": true, "-Inf text": true, "max float": true, "-max float": true}

func init() {
	register(&fw.Check{
		ID:   "C26",
		Rule: "Intcomma, Intword, Ordinal, Apnumber, FilesizeFormat equal a model (texts and plural forms from the PO file of the language), and the digits they show are read back and compared with the exact rational value; language names equal the PO file and an own table",
		Gens: []fw.Gen{
			{Name: "integers", Quick: 5000, Thor: 200000, Run: func(t *fw.T) {
				h := randHuman(t)
				if t.Chance(4) {
					h = soloHuman("en")
				}
				var u uint64
				switch t.IntN(5) {
				case 0:
					u = uint64(t.IntN(1300))
				case 1: // around units
					u = fw.Pick(t, []uint64{1e3, 1e6, 1e9, 1e12, 1e15, 1e18, 1 << 10, 1 << 20, 1 << 30, 1 << 40, 1 << 50, 1 << 53, 1 << 60, 1 << 63})
					u = u*uint64(1+t.IntN(3)) + uint64(t.IntN(5)) - 2
				default:
					u = randUint(t)
				}
				neg := t.Chance(4) && u <= 1<<63
				reps := integerReps(u, neg)
				t.Sample("%s %d %v", h.Desc, u, neg)
				t.Distinct(h.Name, u, neg)
				for i := 0; i < 8; i++ {
					r := fw.Pick(t, reps)
					if d, isDur := r.V.(time.Duration); isDur {
						_ = d
						t.Count("durations", 1)
					}
					checkNumber(t, h, r)
				}
			}},
			{Name: "floats", Quick: 6000, Thor: 250000, Run: func(t *fw.T) {
				h := randHuman(t)
				if t.Chance(4) {
					h = soloHuman("en")
				}
				for i := 0; i < 3; i++ {
					f := randBig(t)
					t.Sample("%s %g", h.Desc, f)
					t.Distinct(f)
					checkNumber(t, h, rep{fmt.Sprintf("float64(%g)", f), f})
					checkNumber(t, h, rep{fmt.Sprintf("string(%g)", f), strconv.FormatFloat(f, fw.Pick(t, []byte("feg")), -1, 64)})
					if f32 := float32(f); !math.IsInf(float64(f32), 0) {
						checkNumber(t, h, rep{fmt.Sprintf("float32(%g)", f32), &f32})
					}
				}
			}},
			{Name: "fractions", Quick: 3000, Thor: 100000, Run: func(t *fw.T) {
				h := randHuman(t)
				s := strconv.FormatUint(randUint(t)%1_000_000_000, 10) + "." + strings.TrimRight(fmt.Sprintf("%0*d", 1+t.IntN(9), t.IntN(1e9)), "0") + itoa(1+t.IntN(9))
				if t.Chance(3) {
					s = "-" + s
				}
				t.Sample("%s %s", h.Desc, s)
				t.Distinct(s)
				for _, r := range fractionReps(s) {
					checkNumber(t, h, r)
				}
			}},
			{Name: "small-numbers", Quick: 97, Thor: 98, Run: func(t *fw.T) {
				h := soloHuman(append(localeKeys[:len(localeKeys):len(localeKeys)], "en")[t.Idx%(len(localeKeys)+1)])
				t.Sample("%s", h.Desc)
				t.Distinct(h.Name)
				for i := -30; i < 1200; i++ {
					checkNumber(t, h, rep{itoa(i), i})
				}
				t.Count("languages with all small numbers", 1)
			}},
			{Name: "bytes", Quick: 300, Thor: 3000, Run: func(t *fw.T) {
				h := randHuman(t)
				b := make([]byte, fw.Pick(t, []int{0, 1, 2, 1023, 1024, 1025, 1 << 20, t.IntN(5000)}))
				if len(b) == 0 && t.Chance(2) {
					b = nil
				}
				t.Sample("%d bytes", len(b))
				t.Distinct(len(b), h.Name)
				t.Eval(1)
				want, _ := h.filesize(int64(len(b)))
				if got := h.H.FilesizeFormat(b); got != want {
					t.Fail("FilesizeFormat", "%s: FilesizeFormat(%d bytes) = %q, want %q", h.Desc, len(b), got, want)
				}
			}},
			{Name: "no-number", Quick: 300, Thor: 3000, Run: func(t *fw.T) {
				h := randHuman(t)
				t.Distinct(h.Name)
				for _, v := range nonNumbers() {
					t.Sample("%s", v.Name)
					t.Eval(5)
					fns := map[string]func(any) string{"Intcomma": h.H.Intcomma, "Intword": h.H.Intword, "Ordinal": h.H.Ordinal, "Apnumber": h.H.Apnumber, "FilesizeFormat": h.H.FilesizeFormat}
					for _, fn := range fw.SortedKeys(fns) {
						t.Note("%s(%s)", fn, v.Name)
						got := fns[fn](v.V)
						if got == "" {
							t.Fail("no-number", "%s(%s) is empty", fn, v.Name)
						}
						if want := errText(v.V); notNumeric[v.Name] && !numericText[v.Name] && got != want {
							t.Fail("no-number", "%s(%s) = %q, want %q", fn, v.Name, got, want)
						}
					}
					if _, ok := exactOf(v.V); ok && v.Name != "underscore" && v.Name != "hex" {
						checkNumber(t, h, v)
					}
				}
			}},
			{Name: "language-names", Quick: 400, Thor: 4000, Run: func(t *fw.T) {
				h := randHuman(t)
				t.Sample("%s", h.Desc)
				t.Distinct(h.Name)
				for code, name := range englishNames {
					t.Eval(2)
					want := h.tr("", name)
					if got := h.H.LanguageNameByCode(code); got != want {
						t.Fail("language-code", "%s: LanguageNameByCode(%q) = %q, want %q", h.Desc, code, got, want)
					}
					if got := h.H.LanguageName(name); got != want {
						t.Fail("language-name", "%s: LanguageName(%q) = %q, want %q", h.Desc, name, got, want)
					}
					if info := humanize.LocaleInfos[code]; info.Code != code || info.Name != name || info.NameLocal == "" {
						t.Fail("language-info", "LocaleInfos[%q] = %+v", code, info)
					}
				}
				for _, code := range []string{"", "xx", "klingon", "d", "deu-DE-x", "english", "German", "%d", "\x00", randIdent(t)} {
					if _, known := englishNames[strings.ToLower(strings.ReplaceAll(code, "_", "-"))]; known {
						continue
					}
					if _, known := humanize.LocaleInfos[code]; known {
						continue
					}
					if got := h.H.LanguageNameByCode(code); got != "" {
						t.Fail("language-code", "%s: LanguageNameByCode(%q) = %q", h.Desc, code, got)
					}
				}
				for _, name := range []string{"Klingon", "no language " + randIdent(t), "%d %s"} {
					if got := h.H.LanguageName(name); got != name {
						t.Fail("language-name", "%s: LanguageName(%q) = %q", h.Desc, name, got)
					}
				}
			}},
		},
		MinNonTriv: 10000,
		Need: []string{"Intword 6", "Intword 9", "Intword 12", "Intword 15", "Intword 18", "Intword 21", "Intword 24", "Intword 27", "Intword 30", "Intword 33", "Intword 100",
			"FilesizeFormat 1024^0", "FilesizeFormat 1024^1", "FilesizeFormat 1024^2", "FilesizeFormat 1024^3", "FilesizeFormat 1024^4", "FilesizeFormat 1024^5",
			"Apnumber spelled out", "languages with all small numbers"},
		Assumptions: []string{
			"golang.org/x/text/number formats numbers of each language; digits, sign and magnitude are read back independently",
			"integers of more than 64 bits and floats carry the digits of their shortest decimal text",
		},
	})
}

func randIdent(t *fw.T) string {
	s := ""
	for i := 1 + t.IntN(6); i > 0; i-- {
		s += string(rune('a' + t.IntN(26)))
	}
	return s
}
