package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/vorlif/spreak/humanize"

	"verifharness/fw"
)

type sinceOpts struct {
	Depth  int
	Adj    bool // adjacent units only
	Ctx    string
	Mirror bool
}

var sinceUnits = []struct {
	name string
	secs int64
}{
	{"year", 365 * 86400}, {"month", 30 * 86400}, {"week", 7 * 86400}, {"day", 86400}, {"hour", 3600}, {"minute", 60},
}

// leapsBetween counts the leap years from y1 up to and without y2.
func leapsBetween(y1, y2 int) int64 {
	if y2 < y1 {
		return -leapsBetween(y2, y1)
	}
	upTo := func(y int64) int64 { return floorDiv(y, 4) - floorDiv(y, 100) + floorDiv(y, 400) }
	return upTo(int64(y2)-1) - upTo(int64(y1)-1)
}

// elapsed returns the seconds that are to be split into units: the difference in
// whole seconds without the leap days in between, at least the number of
// complete calendar years. Years are those of the place of the first time.
func elapsed(a, b time.Time) int64 {
	_, offA := a.Zone()
	_, offB := b.In(a.Location()).Zone()
	ca, cb := civilOf(a.Unix(), 0, offA), civilOf(b.Unix(), 0, offB)
	leaps := leapsBetween(ca.Y, cb.Y)
	if leaps != 0 {
		if leapYear(ca.Y) {
			leaps--
		} else if leapYear(cb.Y) {
			leaps++
		}
	}
	d := cb.Unix - ca.Unix - 86400*leaps
	years := cb.Y - ca.Y
	if years > 0 {
		birthday := time.Date(cb.Y, time.Month(ca.M), ca.D, ca.Hour, ca.Min, ca.Sec, a.Nanosecond(), a.Location())
		if birthday.Unix() > cb.Unix {
			years--
		}
	}
	return max(d, int64(years)*365*86400)
}

// units splits a number of seconds.
func splitUnits(secs int64, o sinceOpts) (names []string, counts []int64) {
	depth := o.Depth
	if depth <= 0 {
		depth = 2
	}
	for _, u := range sinceUnits {
		if len(names) == depth {
			break
		}
		n := secs / u.secs
		if n <= 0 {
			if len(names) > 0 && o.Adj {
				break
			}
			continue
		}
		names = append(names, u.name)
		counts = append(counts, n)
		secs -= n * u.secs
	}
	return names, counts
}

// since renders the time from a to b.
func (h *human) since(a, b time.Time, o sinceOpts) string {
	d := elapsed(a, b)
	var names []string
	var counts []int64
	if d > 0 {
		names, counts = splitUnits(d, o)
	}
	if len(names) == 0 {
		return h.ntr(o.Ctx, "%[1]v minute", "%[1]v minutes", 0, 0)
	}
	var parts []string
	for i, n := range names {
		parts = append(parts, h.ntr(o.Ctx, "%[1]v "+n, "%[1]v "+n+"s", counts[i], counts[i]))
	}
	return strings.Join(parts, h.tr("", ", "))
}

// randLater returns a time that differs from the given one in an interesting way.
func randLater(t *fw.T, a time.Time) time.Time {
	loc := a.Location()
	if t.Chance(3) {
		loc = randZone(t)
	}
	var b time.Time
	switch t.IntN(8) {
	case 0: // round amounts of units, plus or minus a little
		b = a
		for i := t.IntN(4); i >= 0; i-- {
			u := fw.Pick(t, sinceUnits)
			b = b.Add(time.Duration(u.secs*int64(t.IntN(13))) * time.Second)
		}
	case 1: // calendar steps
		b = a.AddDate(t.IntN(60), t.IntN(12), t.IntN(32))
	case 2: // exact anniversaries
		b = a.AddDate(fw.Pick(t, []int{1, 2, 3, 4, 5, 8, 10, 28, 100, 399, 400, 401}), 0, 0)
	case 3:
		b = a.Add(time.Duration(t.Int64N(int64(2 * time.Hour))))
	case 4:
		b = a.Add(time.Duration(t.Int64N(int64(100 * 24 * time.Hour))))
	case 5:
		b = a.Add(time.Duration(t.Int64N(int64(60 * 365 * 24 * time.Hour))))
	case 6:
		b = a.AddDate(0, t.IntN(50), 0)
	default:
		b = randTime(t)
	}
	b = b.Add(fw.Pick(t, []time.Duration{0, 0, 1, -1, time.Second, -time.Second, time.Minute, -time.Minute, time.Hour, -time.Hour, 24 * time.Hour, -24 * time.Hour, 999 * time.Millisecond}))
	b = b.In(loc)
	if y := b.Year(); y < 1 || y > 9999 {
		return a.In(loc)
	}
	return b
}

func randSinceOpts(t *fw.T) (o sinceOpts, opts []humanize.TimeOption, desc string) {
	o.Adj = true
	o.Depth = fw.Pick(t, []int{2, 2, 0, 1, 2, 3, 4, 5, 6, 7, 100, -1, math.MinInt, math.MaxInt})
	if o.Depth != 2 || t.Chance(2) {
		opts = append(opts, humanize.WithDepth(o.Depth))
		desc += fmt.Sprintf(" WithDepth(%d)", o.Depth)
	}
	if t.Chance(3) {
		o.Adj = false
		opts = append(opts, humanize.WithoutAdjacentCheck())
		desc += " WithoutAdjacentCheck"
	}
	if len(opts) > 1 && t.Chance(2) {
		opts[0], opts[1] = opts[1], opts[0]
	}
	return o, opts, desc
}

// timeArgs are the ways in which a time may be given.
func timeArgs(t *fw.T, tm time.Time) (rep, time.Time) {
	unix := time.Unix(tm.Unix(), 0)
	s := tm.Unix()
	switch t.IntN(14) {
	case 0:
		return rep{"*time.Time", &tm}, tm
	case 1:
		p := &tm
		return rep{"**time.Time", &p}, tm
	case 2:
		return rep{"int64", s}, unix
	case 3:
		return rep{"int", int(s)}, unix
	case 4:
		return rep{"string", strconv.FormatInt(s, 10)}, unix
	case 5:
		f := float64(s)
		return rep{"float64", f}, unix
	case 6:
		if s >= 0 {
			return rep{"uint64", uint64(s)}, unix
		}
		return rep{"float64 fraction", float64(s) - 0.25}, unix
	case 7:
		return rep{"namedInt64", namedInt64(s)}, unix
	case 8:
		if s >= 0 {
			return rep{"string fraction", strconv.FormatInt(s, 10) + ".75"}, unix
		}
		return rep{"*int64", &s}, unix
	case 9:
		if s > math.MinInt32 && s < math.MaxInt32 {
			return rep{"int32", int32(s)}, unix
		}
		return rep{"namedString", namedString(strconv.FormatInt(s, 10))}, unix
	}
	return rep{"time.Time", tm}, tm
}

// notNumeric are the names of the values that are no numbers in any reading.
var notNumeric = func() map[string]bool {
	m := map[string]bool{}
	for _, n := range []string{"nil", "*int nil", "**int nil", "**int to nil", "*float64 nil", "*string nil", "*struct nil", "*any nil", "*error nil", "nil map",
		"nil func", "nil chan", "nil slice", "empty string", "blank", "text", "text with number", "comma", "two points", "sign", "plus", "point", "c", "cc",
		"e", "verb", "invalid utf8", "NaN", "Inf", "-Inf", "float32 NaN", "float32 Inf", "*NaN", "namedFloat Inf", "NaN text", "Inf text", "-Inf text", "overflow", "nul", "arabic digits",
		"json.Number empty", "json.Number text", "namedString", "true", "*bool", "struct", "num struct", "*struct", "array", "slice", "map", "func", "chan",
		"language", "fmt.Errorf", "message", "max float", "-max float"} {
		m[n] = true
	}
	return m
}()

// errText is the text for values that are not supported.
func errText(v any) string {
	if v == nil {
		return "<nil>"
	}
	return fmt.Sprintf("%%!(%T=%v)", v, v)
}

func init() {
	const stamp = "2006-01-02 15:04:05.999999999 -0700 MST"
	register(&fw.Check{
		ID:   "C24",
		Env:  []string{"TZ=Europe/Berlin"},
		Rule: "TimeSince, TimeUntil and the From variants equal an integer model of the documented units, with texts and plural forms from the PO file of the language; with the clock of the process standing still where no time is given",
		Gens: []fw.Gen{
			{Name: "pairs", Quick: 6000, Thor: 300000, Run: func(t *fw.T) {
				h := randHuman(t)
				for i := 0; i < 8; i++ {
					a := randTime(t)
					b := randLater(t, a)
					if t.Chance(8) {
						a, b = b, a
					}
					o, opts, desc := randSinceOpts(t)
					arg, at := timeArgs(t, a)
					where := fmt.Sprintf("%s: from %s (%s) to %s%s", h.Desc, at.Format(stamp), arg.Name, b.Format(stamp), desc)
					t.Sample("%s", where)
					t.Eval(1)
					cmp := func(fn, got, want string) {
						if got != want {
							t.Fail(fn, "%s\n%s returns %q, want %q", where, fn, got, want)
						}
					}
					switch t.IntN(6) {
					case 0:
						if !b.IsZero() {
							cmp("TimeSince", h.H.TimeSince(arg.V, append(opts, humanize.WithNow(b))...), h.since(at, b, o))
						}
					case 1:
						if !b.IsZero() {
							// the argument is the later time
							cmp("TimeUntil", h.H.TimeUntil(arg.V, append([]humanize.TimeOption{humanize.WithNow(b)}, opts...)...), h.since(b, at, o))
						}
					case 2:
						if !b.IsZero() {
							cmp("TimeUntilFrom", h.H.TimeUntilFrom(arg.V, b, opts...), h.since(b, at, o))
						}
					case 3:
						if !b.IsZero() {
							cmp("WithReverse", h.H.TimeSince(arg.V, append(opts, humanize.WithReverse(true), humanize.WithNow(b))...), h.since(b, at, o))
						}
					default:
						if !b.IsZero() {
							cmp("TimeSinceFrom", h.H.TimeSinceFrom(arg.V, b, opts...), h.since(at, b, o))
						}
					}
					names, counts := splitUnits(elapsed(at, b), o)
					t.Distinct(names, counts)
					if len(names) > 0 {
						t.Count("differences with "+itoa(len(names))+" units", 1)
					} else {
						t.Count("differences without units", 1)
					}
				}
			}},
			{Name: "boundaries", Quick: 2500, Thor: 60000, Run: func(t *fw.T) {
				// one second before, at and after every change of the text
				h := randHuman(t)
				a := randTime(t)
				u := fw.Pick(t, sinceUnits)
				n := int64(1 + t.IntN(12))
				o, opts, desc := randSinceOpts(t)
				for d := int64(-1); d <= 1; d++ {
					b := a.Add(time.Duration(n*u.secs+d) * time.Second)
					t.Sample("%s: %s + %d %s %+d s%s", h.Desc, a.Format(stamp), n, u.name, d, desc)
					t.Distinct(u.name, n, d, h.Name)
					t.Eval(2)
					if got, want := h.H.TimeSinceFrom(a, b, opts...), h.since(a, b, o); got != want {
						t.Fail("TimeSinceFrom", "%s: from %s, %d %s and %+d s later%s\nTimeSinceFrom returns %q, want %q", h.Desc, a.Format(stamp), n, u.name, d, desc, got, want)
					}
					if got, want := h.H.TimeUntilFrom(b, a, opts...), h.since(a, b, o); got != want {
						t.Fail("TimeUntilFrom", "%s: until %s, from %d %s and %+d s before%s\nTimeUntilFrom returns %q, want %q", h.Desc, b.Format(stamp), n, u.name, d, desc, got, want)
					}
				}
			}},
			{Name: "clock", Quick: 2000, Thor: 60000, Run: func(t *fw.T) {
				// no time given: the clock of the process counts; durations are relative to it
				h := randHuman(t)
				after := time.Duration(t.Int64N(int64(250 * 365 * 24 * time.Hour)))
				o, opts, desc := randSinceOpts(t)
				inBubble(after, func() {
					now := time.Now()
					for i := 0; i < 6; i++ {
						a := randLater(t, now)
						arg, at := timeArgs(t, a)
						if t.Chance(2) {
							d := a.Sub(now)
							if t.Chance(2) {
								d = -d
							}
							at = now.Add(d)
							arg = rep{"time.Duration", d}
							if t.Chance(3) {
								arg = rep{"*time.Duration", &d}
							}
						}
						where := fmt.Sprintf("%s: %s, argument %s (%s)%s", h.Desc, now.Format(stamp), at.Format(stamp), arg.Name, desc)
						t.Sample("%s", where)
						t.Distinct(elapsed(at, now))
						t.Eval(2)
						op := opts
						if t.Chance(3) {
							op = append(op[:len(op):len(op)], humanize.WithNow(time.Time{}))
						}
						if got, want := h.H.TimeSince(arg.V, op...), h.since(at, now, o); got != want {
							t.Fail("TimeSince", "%s\nTimeSince returns %q, want %q", where, got, want)
						}
						if got, want := h.H.TimeUntil(arg.V, op...), h.since(now, at, o); got != want {
							t.Fail("TimeUntil", "%s\nTimeUntil returns %q, want %q", where, got, want)
						}
						if !time.Now().Equal(now) {
							panic("the clock moved")
						}
					}
				})
			}},
			{Name: "real-clock", Quick: 200, Thor: 2000, Run: func(t *fw.T) {
				h := randHuman(t)
				o, opts, desc := randSinceOpts(t)
				d := time.Duration(t.Int64N(int64(1000 * time.Hour)))
				before := time.Now()
				at := before.Add(-d)
				got := h.H.TimeSince(at, opts...)
				after := time.Now()
				t.Eval(1)
				t.Distinct(d)
				t.Sample("%s ago%s", d, desc)
				if w1, w2 := h.since(at, before, o), h.since(at, after, o); got != w1 && got != w2 {
					t.Fail("TimeSince", "%s: TimeSince(%s ago)%s = %q, want %q or %q", h.Desc, d, desc, got, w1, w2)
				}
			}},
			{Name: "no-time", Quick: 300, Thor: 3000, Run: func(t *fw.T) {
				h := randHuman(t)
				_, opts, _ := randSinceOpts(t)
				b := randTime(t)
				for _, v := range nonNumbers() {
					if !notNumeric[v.Name] {
						if got := h.H.TimeSince(v.V, opts...) + h.H.TimeUntilFrom(v.V, b, opts...); got == "" {
							t.Fail("no-time", "TimeSince(%s) is empty", v.Name)
						}
						continue
					}
					t.Sample("%s", v.Name)
					t.Distinct(v.Name)
					t.Eval(4)
					for _, r := range []struct{ fn, got string }{
						{"TimeSince", h.H.TimeSince(v.V, opts...)}, {"TimeUntil", h.H.TimeUntil(v.V, opts...)},
						{"TimeSinceFrom", h.H.TimeSinceFrom(v.V, b, opts...)}, {"TimeUntilFrom", h.H.TimeUntilFrom(v.V, b, opts...)},
					} {
						if want := errText(v.V); r.got != want {
							t.Fail("no-time", "%s(%s) = %q, want %q", r.fn, v.Name, r.got, want)
						}
					}
				}
			}},
			{Name: "any-time", Quick: 1500, Thor: 30000, Run: func(t *fw.T) {
				// times over the whole range: some text, no crash
				h := randHuman(t)
				a := time.Unix(int64(t.Uint64()), t.Int64N(1e9)).In(randZone(t))
				b := time.Unix(int64(t.Uint64()), t.Int64N(1e9)).In(randZone(t))
				_, opts, desc := randSinceOpts(t)
				t.Sample("%d %d%s", a.Unix(), b.Unix(), desc)
				t.Distinct(a.Unix(), b.Unix())
				t.Eval(2)
				s, u := h.H.TimeSinceFrom(a, b, opts...), h.H.TimeUntilFrom(b, a, opts...)
				if s == "" || u == "" || strings.Contains(s+u, "%!") {
					t.Fail("any-time", "%s: from %d to %d: TimeSinceFrom %q, TimeUntilFrom %q", h.Desc, a.Unix(), b.Unix(), s, u)
				}
			}},
		},
		MinNonTriv: 10000,
		Need:       []string{"differences with 1 units", "differences with 2 units", "differences with 3 units", "differences with 6 units", "differences without units"},
		Assumptions: []string{
			"years 1 to 9999 are checked exactly",
			"a year has 365 days, a month 30 days, leap days between the years are taken out, as the Django function the documentation refers to does",
			"package time resolves time zones and, for anniversaries, missing or repeated local times",
		},
	})
}
