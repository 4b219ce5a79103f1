package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/vorlif/spreak/humanize"

	"verifharness/fw"
)

// naturalDay is what NaturalDay has to return for a time at a moment.
func (h *human) naturalDay(tm, now time.Time) string {
	a, b := civil(tm), civil(now.In(tm.Location()))
	switch daysFromCivil(a.Y, a.M, a.D) - daysFromCivil(b.Y, b.M, b.D) {
	case 0:
		return h.tr("", "today")
	case 1:
		return h.tr("", "tomorrow")
	case -1:
		return h.tr("", "yesterday")
	}
	return h.formatTime(tm, humanize.DateFormat)
}

// naturalTime is what NaturalTime has to return for a time at a moment.
func (h *human) naturalTime(tm, now time.Time) string {
	sec := now.Unix() - tm.Unix()
	nan := now.Nanosecond() - tm.Nanosecond()
	past := sec > 0 || sec == 0 && nan > 0
	dir, ctx := "ago", "naturaltime-past"
	if past {
		// part seconds of the past do not count
		if nan < 0 {
			sec--
		}
	} else {
		// part seconds of the future are rounded
		sec, nan = -sec, -nan
		dir, ctx = "from now", "naturaltime-future"
		if nan < 0 {
			sec, nan = sec-1, nan+1e9
		}
		if nan >= 5e8 {
			sec++
		}
	}
	count := func(one, unit string, n int64) string {
		return h.ntr("", one+" "+unit+" "+dir, "%[1]v "+unit+"s "+dir, n, n)
	}
	switch {
	case sec >= 86400:
		o := sinceOpts{Depth: 2, Adj: true, Ctx: ctx}
		if past {
			return h.tr("", "%[1]v ago", h.since(tm, now, o))
		}
		return h.tr("", "%[1]v from now", h.since(now.In(tm.Location()), tm, o))
	case sec == 0:
		return h.tr("", "now")
	case sec < 60:
		return count("a", "second", sec)
	case sec < 3600:
		return count("a", "minute", sec/60)
	}
	return count("an", "hour", sec/3600)
}

// randNear returns a time around now.
func randNear(t *fw.T, now time.Time) time.Time {
	loc := randZone(t)
	jitter := fw.Pick(t, []time.Duration{0, 0, 1, -1, 499_999_999, 500_000_000, 500_000_001, -499_999_999, -500_000_000, -500_000_001, time.Second, -time.Second, time.Duration(t.Int64N(2e9)) - 1e9})
	sign := time.Duration(1 - 2*t.IntN(2))
	switch t.IntN(8) {
	case 0:
		return now.Add(sign*time.Duration(t.IntN(120))*time.Second + jitter).In(loc)
	case 1:
		return now.Add(sign*time.Duration(t.IntN(120))*time.Minute + jitter).In(loc)
	case 2:
		return now.Add(sign*time.Duration(t.IntN(50))*time.Hour + jitter).In(loc)
	case 3:
		return now.Add(sign*time.Duration(t.Int64N(int64(3*24*time.Hour))) + jitter).In(loc)
	case 4: // the edges of the days around now
		c := civil(now.In(loc))
		return time.Date(c.Y, time.Month(c.M), c.D+t.IntN(5)-2, 0, 0, 0, 0, loc).Add(jitter)
	case 5: // the same time of day on days around
		return now.In(loc).AddDate(0, 0, t.IntN(7)-3).Add(jitter)
	case 6:
		return now.Add(jitter).In(loc)
	}
	return randLater(t, now)
}

func init() {
	const stamp = "2006-01-02 15:04:05.999999999 -0700 MST"
	register(&fw.Check{
		ID:   "C25",
		Env:  []string{"TZ=America/St_Johns"},
		Rule: "NaturalDay and NaturalTime equal a model of the documented texts; the clock of the process stands still at a chosen moment, so that every boundary is decided exactly",
		Gens: []fw.Gen{
			{Name: "frozen-clock", Quick: 4000, Thor: 150000, Run: func(t *fw.T) {
				after := time.Duration(t.Int64N(int64(120 * 365 * 24 * time.Hour)))
				if t.Chance(3) {
					after = after / 1e9 * 1e9
				}
				if t.Chance(3) { // around midnight somewhere
					after = after / time.Duration(30*time.Minute) * time.Duration(30*time.Minute)
					after += time.Duration(t.IntN(5)-2) * time.Second
				}
				if after < 0 {
					after = 0
				}
				inBubble(after, func() {
					now := time.Now()
					for i := 0; i < 10; i++ {
						h := randHuman(t)
						arg, at := timeArgs(t, randNear(t, now))
						if t.Chance(4) {
							d := randNear(t, now).Sub(now)
							at = now.Add(d)
							arg = rep{"time.Duration", d}
							if t.Chance(3) {
								arg = rep{"*time.Duration", &d}
							}
						}
						where := fmt.Sprintf("%s: now %s, argument %s (%s)", h.Desc, now.UTC().Format(stamp), at.Format(stamp), arg.Name)
						t.Sample("%s", where)
						t.Distinct(at.Sub(now), at.Location().String())
						t.Eval(2)
						day, tm := h.naturalDay(at, now), h.naturalTime(at, now)
						if got := h.H.NaturalDay(arg.V); got != day {
							t.Fail("NaturalDay", "%s\nNaturalDay returns %q, want %q", where, got, day)
						}
						if got := h.H.NaturalTime(arg.V); got != tm {
							t.Fail("NaturalTime", "%s\nNaturalTime returns %q, want %q", where, got, tm)
						}
						switch en := soloHuman("en"); en.naturalDay(at, now) {
						case "today", "tomorrow", "yesterday":
							t.Count(en.naturalDay(at, now), 1)
						default:
							t.Count("other days", 1)
						}
						dir := "past"
						if at.After(now) {
							dir = "future"
						}
						d := at.Sub(now).Abs()
						switch {
						case d < time.Minute:
							t.Count("seconds "+dir, 1)
						case d < time.Hour:
							t.Count("minutes "+dir, 1)
						case d < 24*time.Hour:
							t.Count("hours "+dir, 1)
						default:
							t.Count("days "+dir, 1)
						}
					}
					if !time.Now().Equal(now) {
						panic("the clock moved")
					}
				})
			}},
			{Name: "every-second", Quick: 60, Thor: 600, Run: func(t *fw.T) {
				// all seconds of an hour and all minutes of two days
				h := soloHuman(fw.Pick(t, append([]string{"en"}, localeKeys...)))
				t.Sample("%s", h.Desc)
				t.Distinct(h.Name)
				inBubble(time.Duration(t.Int64N(1e18)), func() {
					now := time.Now()
					check := func(d time.Duration) {
						for _, d := range []time.Duration{d, -d} {
							t.Eval(1)
							at := now.Add(d)
							if got, want := h.H.NaturalTime(at), h.naturalTime(at, now); got != want {
								t.Fail("NaturalTime", "%s: now %s, argument %s: %q, want %q", h.Desc, now.Format(stamp), d, got, want)
							}
						}
					}
					for s := 0; s < 200; s++ {
						check(time.Duration(s)*time.Second + time.Duration(t.IntN(3)-1)*500*time.Millisecond)
					}
					for m := 3; m < 49*60; m += 1 + t.IntN(30) {
						check(time.Duration(m) * time.Minute)
						check(time.Duration(m)*time.Minute - 1)
					}
				})
			}},
			{Name: "moving-clock", Quick: 200, Thor: 3000, Run: func(t *fw.T) {
				// the same time seen from later and later moments
				h := randHuman(t)
				inBubble(time.Duration(t.Int64N(1e18)), func() {
					at := time.Now().Add(time.Duration(t.Int64N(int64(72 * time.Hour)))).In(randZone(t))
					for i := 0; i < 30; i++ {
						time.Sleep(fw.Pick(t, []time.Duration{1, time.Millisecond, time.Second, time.Minute, time.Hour, 12 * time.Hour, 24 * time.Hour}))
						now := time.Now()
						t.Eval(2)
						t.Distinct(at.Sub(now))
						t.Sample("%s %s", h.Desc, at.Sub(now))
						if got, want := h.H.NaturalDay(at), h.naturalDay(at, now); got != want {
							t.Fail("NaturalDay", "%s: now %s, argument %s: %q, want %q", h.Desc, now.Format(stamp), at.Format(stamp), got, want)
						}
						if got, want := h.H.NaturalTime(at), h.naturalTime(at, now); got != want {
							t.Fail("NaturalTime", "%s: now %s, argument %s: %q, want %q", h.Desc, now.Format(stamp), at.Format(stamp), got, want)
						}
					}
				})
			}},
			{Name: "real-clock", Quick: 300, Thor: 3000, Run: func(t *fw.T) {
				h := randHuman(t)
				before := time.Now()
				at := randNear(t, before)
				day, tm := h.H.NaturalDay(at), h.H.NaturalTime(at)
				after := time.Now()
				t.Eval(2)
				t.Distinct(at)
				t.Sample("%s", at)
				if a, b := h.naturalDay(at, before), h.naturalDay(at, after); day != a && day != b {
					t.Fail("NaturalDay", "%s: NaturalDay(%s) = %q, want %q or %q", h.Desc, at, day, a, b)
				}
				if a, b := h.naturalTime(at, before), h.naturalTime(at, after); tm != a && tm != b {
					mid := h.naturalTime(at, before.Add(after.Sub(before)/2))
					if tm != mid && after.Sub(before) < time.Second {
						t.Fail("NaturalTime", "%s: NaturalTime(%s) = %q, want %q or %q", h.Desc, at, tm, a, b)
					}
				}
			}},
			{Name: "no-time", Quick: 300, Thor: 3000, Run: func(t *fw.T) {
				h := randHuman(t)
				for _, v := range nonNumbers() {
					t.Sample("%s", v.Name)
					t.Distinct(v.Name)
					t.Eval(2)
					day, tm := h.H.NaturalDay(v.V), h.H.NaturalTime(v.V)
					if day == "" || tm == "" {
						t.Fail("no-time", "NaturalDay(%s) = %q, NaturalTime(%s) = %q", v.Name, day, v.Name, tm)
					}
					if want := errText(v.V); notNumeric[v.Name] && (day != want || tm != want) {
						t.Fail("no-time", "NaturalDay(%s) = %q, NaturalTime(%s) = %q, want %q", v.Name, day, v.Name, tm, want)
					}
				}
			}},
			{Name: "any-time", Quick: 1000, Thor: 20000, Run: func(t *fw.T) {
				h := randHuman(t)
				a := time.Unix(int64(t.Uint64()), t.Int64N(1e9)).In(randZone(t))
				var arg any = a
				switch t.IntN(4) {
				case 0:
					arg = time.Duration(t.Uint64())
				case 1:
					arg = int64(t.Uint64())
				case 2:
					arg = time.Time{}.In(randZone(t))
				}
				t.Sample("%v", arg)
				t.Distinct(fmt.Sprint(arg))
				t.Eval(2)
				s, u := h.H.NaturalDay(arg), h.H.NaturalTime(arg)
				if s == "" || u == "" || strings.Contains(s+u, "%!") {
					t.Fail("any-time", "%s: NaturalDay(%v) = %q, NaturalTime = %q", h.Desc, arg, s, u)
				}
			}},
		},
		MinNonTriv: 10000,
		Need: []string{"today", "tomorrow", "yesterday", "other days", "seconds past", "seconds future", "minutes past", "minutes future",
			"hours past", "hours future", "days past", "days future"},
		Assumptions: []string{
			"the clock is the one of testing/synctest",
			"part seconds: cut off in the past, rounded in the future",
		},
	})
}
