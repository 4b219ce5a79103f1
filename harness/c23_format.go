package main

import (
	"strings"
	"time"
	"unicode/utf8"

	"github.com/vorlif/spreak/humanize"

	"verifharness/fw"
)

var literalRunes = []rune("BCJkpqvxKQRVX0123456789 .,:;-/_%|'\"()[]{}\t\n\x00äßñйцוの年한ก́‏ \u00a0\U0001F600\ufffd")

// randFormat returns a format string and the format characters it uses.
func randFormat(t *fw.T, noC bool) string {
	var b strings.Builder
	n := 1 + t.IntN(12)
	for i := 0; i < n; i++ {
		switch t.IntN(8) {
		case 0:
			b.WriteRune(fw.Pick(t, literalRunes))
		case 1:
			b.WriteByte('\\')
			switch t.IntN(3) {
			case 0:
				b.WriteRune(fw.Pick(t, literalRunes))
			case 1:
				b.WriteByte(djangoChars[t.IntN(len(djangoChars))])
			default:
				if t.Chance(2) {
					b.WriteByte('\\')
				}
			}
		case 2:
			b.WriteString(fw.Pick(t, []string{"%d", "%[1]s", "%!", "%s %v", "{{n}}", "&nbsp;", ", ", "DATE_FORMAT", "\\\\", "\\\n"}))
		default:
			b.WriteByte(djangoChars[t.IntN(len(djangoChars))])
		}
	}
	if t.Chance(10) {
		b.WriteByte('\\')
	}
	s := b.String()
	if noC {
		s = strings.ReplaceAll(s, "c", "k")
	}
	return s
}

func checkFormat(t *fw.T, h *human, tm time.Time, format string) {
	t.Eval(1)
	got := h.H.FormatTime(tm, format)
	want := h.formatTime(tm, format)
	if got != want {
		t.Fail("format", "%s: FormatTime(%s, %q)\nreturns %q\nwant    %q", h.Desc, tm.Format(time.RFC3339Nano), format, got, want)
	}
}

func init() {
	register(&fw.Check{
		ID:   "C23",
		Env:  []string{"TZ=America/New_York"},
		Rule: "FormatTime equals a renderer that computes every calendar field from the seconds since the epoch and the offset of the zone, takes names from the PO file of the language with an own reader, and copies other and escaped characters",
		Gens: []fw.Gen{
			{Name: "each-character", Quick: 1500, Thor: 40000, Run: func(t *fw.T) {
				h := randHuman(t)
				tm := randTime(t)
				t.Sample("%s %s", h.Desc, tm.Format(time.RFC3339Nano))
				for _, r := range djangoChars {
					t.Distinct(string(r), h.Name)
					if r == 'c' && tm.Nanosecond() != 0 {
						continue // see the generator iso-fraction
					}
					checkFormat(t, h, tm, string(r))
					checkFormat(t, h, tm, "\\"+string(r)+string(r)+"\\")
				}
				t.Count("calendar instants", 1)
			}},
			{Name: "formats", Quick: 6000, Thor: 200000, Run: func(t *fw.T) {
				h := randHuman(t)
				tm := randTime(t)
				for i := 0; i < 6; i++ {
					f := randFormat(t, tm.Nanosecond() != 0)
					t.Sample("%s %s %q", h.Desc, tm.Format(time.RFC3339Nano), f)
					t.Distinct(f)
					checkFormat(t, h, tm, f)
				}
			}},
			{Name: "predefined", Quick: 2000, Thor: 60000, Run: func(t *fw.T) {
				h := randHuman(t)
				tm := randTime(t)
				for _, f := range predefinedNames {
					t.Distinct(f, h.Name)
					t.Sample("%s %s", h.Desc, f)
					checkFormat(t, h, tm, f)
				}
			}},
			{Name: "own-formats", Quick: 1500, Thor: 40000, Run: func(t *fw.T) {
				// formats of the caller, some left empty
				name := fw.Pick(t, localeKeys)
				d := localePackages[name]()
				d.Format = &humanize.FormatData{}
				for _, p := range []*string{&d.Format.DateFormat, &d.Format.TimeFormat, &d.Format.DateTimeFormat, &d.Format.YearMonthFormat,
					&d.Format.MonthDayFormat, &d.Format.ShortDateFormat, &d.Format.ShortDatetimeFormat} {
					if t.Chance(3) {
						continue
					}
					*p = randFormat(t, true)
				}
				if t.Chance(10) {
					d.Format = nil
				}
				base := soloHuman(name)
				h := *base
				h.F = withDefaults(d.Format)
				h.Desc = name + " with own formats"
				h.H = humanize.MustNew(humanize.WithLocale(d)).CreateHumanizer(h.Tag)
				tm := randTime(t)
				t.Sample("%s %+v", h.Desc, h.F)
				t.Distinct(h.F)
				for _, f := range predefinedNames {
					checkFormat(t, &h, tm, f)
				}
			}},
			{Name: "calendar-sweep", Quick: 48, Thor: 400, Run: func(t *fw.T) {
				// every day of a stretch of years: week numbers, days of the year, month lengths
				h := soloHuman("en")
				from := t.IntN(9990)
				t.Sample("years from %d", from+1)
				start := daysFromCivil(from+1, 1, 1)
				for d := start; d < start+10*365; d++ {
					tm := time.Unix(d*86400+t.Int64N(86400), 0).UTC()
					if civil(tm).Y > 9999 {
						break
					}
					checkFormat(t, h, tm, "Y-m-d o W w z t L S y N U")
				}
				t.Distinct(from)
			}},
			{Name: "now", Quick: 400, Thor: 4000, Run: func(t *fw.T) {
				h := randHuman(t)
				t.Sample("%s", h.Desc)
				t.Distinct(h.Name)
				for _, c := range []struct {
					name, format string
					f            func() string
				}{
					{"Now", humanize.DateTimeFormat, h.H.Now}, {"Time", humanize.TimeFormat, h.H.Time}, {"Date", humanize.DateFormat, h.H.Date},
				} {
					t.Eval(1)
					before := time.Now()
					got := c.f()
					after := time.Now()
					if want := h.formatTime(before, c.format); got != want {
						if want2 := h.formatTime(after, c.format); got != want2 {
							t.Fail("now", "%s: %s() = %q, want %q or %q", h.Desc, c.name, got, want, want2)
						}
					}
				}
			}},
			{Name: "machine-zone", Quick: 300, Thor: 3000, Run: func(t *fw.T) {
				// the zone of the machine, with and without a name of its own
				h := randHuman(t)
				tm := randTime(t)
				old := time.Local
				defer func() { time.Local = old }()
				if t.Chance(2) {
					abbr := fw.Pick(t, []string{"EST", "MDT", "CEST", "+0330"})
					off := (t.IntN(96) - 48) * 900
					data := "TZif\x00" + strings.Repeat("\x00", 15) + strings.Repeat("\x00", 19) + "\x01\x00\x00\x00" + string(rune(len(abbr)+1)) +
						string([]byte{byte(off >> 24), byte(off >> 16), byte(off >> 8), byte(off)}) + "\x00\x00" + abbr + "\x00"
					l, err := time.LoadLocationFromTZData("Local", []byte(data))
					if err != nil {
						panic(err)
					}
					time.Local = l
					t.Count("machine zone without a name", 1)
					t.Distinct(abbr, off)
				} else {
					time.Local = randZone(t)
					if time.Local.String() == "Local" {
						time.Local = time.UTC
					}
					t.Distinct(time.Local.String())
				}
				t.Sample("%s", time.Local)
				checkFormat(t, h, tm, "T")
				checkFormat(t, h, tm, "Y-m-d H:i:s T e O")
				checkFormat(t, h, tm.Local(), "Y-m-d H:i:s T O Z")
			}},
			{Name: "any-time-any-text", Quick: 3000, Thor: 100000, Run: func(t *fw.T) {
				// times outside of the years 1 to 9999 and texts that are not UTF-8: no crash, literals kept
				h := randHuman(t)
				tm := time.Unix(int64(t.Uint64()), int64(t.IntN(1e9))).In(randZone(t))
				if t.Chance(4) {
					tm = time.Time{}.In(randZone(t))
				}
				raw := make([]byte, t.IntN(20))
				for i := range raw {
					raw[i] = byte(t.Uint32())
				}
				f := string(raw) + randFormat(t, false)
				t.Distinct(f)
				t.Sample("%d %q", tm.Unix(), f)
				t.Eval(1)
				got := h.H.FormatTime(tm, f)
				if !utf8.ValidString(f) {
					return
				}
				lit := ""
				for _, r := range fw.Pick(t, []string{"2024", "B", "äß", "%B", "\\Y\\m\\d", "\\\\"}) {
					lit += string(r)
				}
				want := strings.NewReplacer("\\\\", "\\", "\\", "").Replace(lit)
				if _, pre := h.predefined()[f]; !pre && !strings.HasSuffix(f, "\\") {
					if got2 := h.H.FormatTime(tm, f+lit); got2 != got+want {
						t.Fail("literal", "FormatTime(%q) = %q and FormatTime(%q) = %q, want the text %q at the end", f, got, f+lit, got2, want)
					}
				}
			}},
			{Name: "iso-fraction", Quick: 200, Thor: 4000, Run: func(t *fw.T) {
				// c writes the fraction of the second as plain number of nanoseconds
				h := soloHuman("en")
				tm := randTime(t)
				c := civil(tm)
				ns := c.Nan
				if t.Chance(3) {
					ns = 123456
				}
				tm = tm.Add(time.Duration(ns - c.Nan))
				got := h.H.FormatTime(tm, "c")
				t.Sample("%s", got)
				t.Distinct(ns)
				t.Eval(1)
				head := h.H.FormatTime(tm, "Y-m-d\\TH:i:s.")
				frac, ok := strings.CutPrefix(got, head)
				if !ok || strings.Trim(frac, "0123456789") != "" || frac == "" {
					t.Fail("c", "FormatTime(%s, \"c\") = %q, want %q and a fraction", tm.Format(time.RFC3339Nano), got, head)
				}
				exact := nineDigits(ns)
				if frac == exact || len(frac) == 6 && strings.HasPrefix(exact, frac) || strings.TrimRight(exact, "0") == strings.TrimRight(frac, "0") {
					return
				}
				if frac == itoa(ns) {
					t.Fail("c-fraction", "FormatTime(%s, \"c\") = %q, the fraction of the second is .%s", tm.Format(time.RFC3339Nano), got, exact)
				}
				t.Fail("c", "FormatTime(%s, \"c\") = %q, the fraction of the second is .%s", tm.Format(time.RFC3339Nano), got, exact)
			}},
		},
		MinNonTriv: 10000,
		Need:       []string{"calendar instants", "machine zone without a name"},
		Assumptions: []string{
			"time zone offsets, names and daylight saving flags of package time are right",
			"years 1 to 9999 and valid UTF-8 are checked exactly; elsewhere no crash and literal text kept",
		},
	})
}
