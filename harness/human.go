package main

import (
	"fmt"
	"io/fs"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode"

	"golang.org/x/text/language"
	"golang.org/x/text/message"

	"github.com/vorlif/spreak/humanize"

	"verifharness/fw"
	"verifharness/oracle"
)

// hcat is the catalog of a humanize language, read without the library.
type hcat struct {
	Forms  int
	Plural *oracle.CExpr
	Lang   string
	Raw    string
	E      map[[2]string][]string
}

// readPO reads the regular PO files of the humanize languages.
func readPO(data string) (*hcat, error) {
	c := &hcat{E: map[[2]string][]string{}, Raw: data}
	var ctx, id string
	var strs []string
	var cur *string
	fuzzy := false
	flush := func() {
		if strs != nil && !fuzzy {
			if id == "" && ctx == "" {
				for _, l := range strings.Split(strs[0], "\n") {
					k, v, _ := strings.Cut(l, ":")
					v = strings.TrimSpace(v)
					switch k {
					case "Plural-Forms":
						c.Forms, c.Plural = oracle.MustPlural(v)
					case "Language":
						c.Lang = v
					}
				}
			} else {
				c.E[[2]string{ctx, id}] = strs
			}
		}
		ctx, id, strs, cur, fuzzy = "", "", nil, nil, false
	}
	for n, l := range strings.Split(data, "\n") {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "#") {
			if strings.HasPrefix(l, "#~") {
				continue
			}
			if strs != nil {
				flush()
			}
			if strings.HasPrefix(l, "#,") && strings.Contains(l, "fuzzy") {
				fuzzy = true
			}
			continue
		}
		key, lit := "", l
		if l[0] != '"' {
			key, lit, _ = strings.Cut(l, " ")
		}
		text, err := strconv.Unquote(strings.TrimSpace(lit))
		if err != nil {
			return nil, fmt.Errorf("line %d: %q: %w", n+1, l, err)
		}
		switch {
		case key == "msgctxt":
			if strs != nil {
				flush()
			}
			ctx = text
			cur = &ctx
		case key == "msgid":
			if strs != nil {
				flush()
			}
			id = text
			cur = &id
		case key == "msgid_plural":
			cur = new(string)
			*cur = text
		case strings.HasPrefix(key, "msgstr"):
			strs = append(strs, text)
			cur = nil
		case key == "":
			if cur != nil {
				*cur += text
			} else {
				strs[len(strs)-1] += text
			}
		default:
			return nil, fmt.Errorf("line %d: %q", n+1, l)
		}
	}
	flush()
	return c, nil
}

// human is a humanizer together with what is known about its language.
type human struct {
	Name string
	Desc string
	Tag  language.Tag
	H    *humanize.Humanizer
	cat  *hcat
	pr   *message.Printer
	en   *message.Printer
	F    humanize.FormatData
}

var englishFormats = humanize.FormatData{
	DateFormat:          "N j, Y",
	TimeFormat:          "P",
	DateTimeFormat:      "N j, Y, P",
	YearMonthFormat:     "F Y",
	MonthDayFormat:      "F j",
	ShortDateFormat:     "m/d/Y",
	ShortDatetimeFormat: "m/d/Y P",
}

func withDefaults(f *humanize.FormatData) humanize.FormatData {
	if f == nil {
		return englishFormats
	}
	out := *f
	d := func(s *string, def string) {
		if *s == "" {
			*s = def
		}
	}
	d(&out.DateFormat, englishFormats.DateFormat)
	d(&out.TimeFormat, englishFormats.TimeFormat)
	d(&out.DateTimeFormat, englishFormats.DateTimeFormat)
	d(&out.YearMonthFormat, englishFormats.YearMonthFormat)
	d(&out.MonthDayFormat, englishFormats.MonthDayFormat)
	d(&out.ShortDateFormat, englishFormats.ShortDateFormat)
	d(&out.ShortDatetimeFormat, englishFormats.ShortDatetimeFormat)
	return out
}

func (h *human) render(text string, pr *message.Printer, vars []any) string {
	if len(vars) == 0 {
		return text
	}
	return pr.Sprintf(text, vars...)
}

// tr returns the text of the language or else the English one.
func (h *human) tr(ctx, id string, vars ...any) string {
	if h.cat != nil {
		if e := h.cat.E[[2]string{ctx, id}]; len(e) > 0 && e[0] != "" {
			return h.render(e[0], h.pr, vars)
		}
	}
	return h.render(id, h.en, vars)
}

// ntr is tr for texts with plural forms.
func (h *human) ntr(ctx, id, plural string, n int64, vars ...any) string {
	if n < 0 {
		n = -n
	}
	if h.cat != nil {
		if e := h.cat.E[[2]string{ctx, id}]; len(e) > 0 {
			form, ok := h.cat.Plural.Eval(n)
			if ok && form >= 0 && form < int64(len(e)) && e[form] != "" {
				return h.render(e[form], h.pr, vars)
			}
		}
	}
	if n == 1 {
		return h.render(id, h.en, vars)
	}
	return h.render(plural, h.en, vars)
}

// own tells whether the language has a text for the entry.
func (h *human) own(ctx, id string) bool {
	if h.cat == nil {
		return false
	}
	e := h.cat.E[[2]string{ctx, id}]
	return len(e) > 0 && e[0] != ""
}

var (
	humanMu    sync.Mutex
	humanCats  = map[string]*hcat{}
	humanSolo  = map[string]*human{}
	humanTags  = map[string]language.Tag{}
	humanAll   *humanize.Collection
	localeKeys = fw.SortedKeys(localePackages)
)

// localeLanguages are the languages the packages are made for.
var localeLanguages = func() map[string]string {
	m := map[string]string{
		"arDZ": "ar-DZ", "enAU": "en-AU", "enGB": "en-GB", "esAR": "es-AR", "esCO": "es-CO", "esMX": "es-MX",
		"esVE": "es-VE", "ptBR": "pt-BR", "srLatn": "sr-Latn", "zhHans": "zh-Hans", "zhHant": "zh-Hant",
	}
	for _, k := range localeKeys {
		if m[k] == "" {
			m[k] = k
		}
	}
	return m
}()

func catOf(name string) *hcat {
	humanMu.Lock()
	defer humanMu.Unlock()
	if c := humanCats[name]; c != nil {
		return c
	}
	data, err := fs.ReadFile(localePackages[name]().Fs, "django.po")
	if err != nil {
		panic(err)
	}
	c, err := readPO(string(data))
	if err != nil {
		panic(fmt.Sprint(name, ": ", err))
	}
	humanCats[name] = c
	return c
}

// humanOf is the humanizer of a collection for the language of a package.
func humanOf(c *humanize.Collection, name, desc string) *human {
	tag := language.MustParse(localeLanguages[name])
	return &human{
		Name: name, Desc: name + " (" + desc + ")", Tag: tag, H: c.CreateHumanizer(tag), cat: catOf(name),
		pr: message.NewPrinter(tag), en: message.NewPrinter(language.English), F: withDefaults(localePackages[name]().Format),
	}
}

func soloHuman(name string) *human {
	humanMu.Lock()
	h := humanSolo[name]
	humanMu.Unlock()
	if h != nil {
		return h
	}
	if name == "en" {
		h = englishHuman(humanize.MustNew(), "alone")
	} else {
		h = humanOf(humanize.MustNew(humanize.WithLocale(localePackages[name]())), name, "alone")
	}
	humanMu.Lock()
	humanSolo[name] = h
	humanMu.Unlock()
	return h
}

func englishHuman(c *humanize.Collection, desc string) *human {
	en := message.NewPrinter(language.English)
	return &human{Name: "en", Desc: "en (" + desc + ")", Tag: language.English, H: c.CreateHumanizer(language.English), pr: en, en: en, F: englishFormats}
}

func allCollection() *humanize.Collection {
	humanMu.Lock()
	defer humanMu.Unlock()
	if humanAll == nil {
		var data []*humanize.LocaleData
		for _, k := range localeKeys {
			data = append(data, localePackages[k]())
		}
		humanAll = humanize.MustNew(humanize.WithLocale(data...))
	}
	return humanAll
}

// randHuman picks a humanizer: of a language alone, with all others, or with some others.
func randHuman(t *fw.T) *human {
	name := fw.Pick(t, localeKeys)
	if t.Chance(12) {
		name = "en"
	}
	switch t.IntN(20) {
	case 0, 1:
		return humanIn(allCollection(), name, "with all")
	case 2:
		data := []*humanize.LocaleData{}
		desc := []string{}
		for i := t.IntN(4); i >= 0; i-- {
			k := fw.Pick(t, localeKeys)
			data = append(data, localePackages[k]())
			desc = append(desc, k)
		}
		if name != "en" {
			i := t.IntN(len(data) + 1)
			data = append(data[:i:i], append([]*humanize.LocaleData{localePackages[name]()}, data[i:]...)...)
		}
		// Portuguese is by default that of Brazil: of equally good languages the matcher takes the first
		slices.SortStableFunc(data, func(a, b *humanize.LocaleData) int {
			pt := func(d *humanize.LocaleData) int {
				switch d.Lang.String() {
				case "pt":
					return -1
				case "pt-BR":
					return 1
				}
				return 0
			}
			return pt(a) - pt(b)
		})
		return humanIn(humanize.MustNew(humanize.WithLocale(data...)), name, "with "+strings.Join(desc, ", "))
	}
	return soloHuman(name)
}

func humanIn(c *humanize.Collection, name, desc string) *human {
	if name == "en" {
		return englishHuman(c, desc)
	}
	return humanOf(c, name, desc)
}

// ---- the calendar, computed without package time ----

type civilTime struct {
	Y, M, D             int
	Hour, Min, Sec, Nan int
	WD                  int // 0 = Sunday
	YD                  int // 1..366
	ISOYear, ISOWeek    int
	Offset              int
	Unix                int64
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func daysFromCivil(y, m, d int) int64 {
	yy := int64(y)
	if m <= 2 {
		yy--
	}
	era := floorDiv(yy, 400)
	yoe := yy - era*400
	mm := int64(m)
	if mm > 2 {
		mm -= 3
	} else {
		mm += 9
	}
	doy := (153*mm+2)/5 + int64(d) - 1
	return era*146097 + yoe*365 + yoe/4 - yoe/100 + doy - 719468
}

func civilFromDays(z int64) (y, m, d int) {
	z += 719468
	era := floorDiv(z, 146097)
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	yy := yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = int(doy - (153*mp+2)/5 + 1)
	if mp < 10 {
		m = int(mp + 3)
	} else {
		m = int(mp - 9)
	}
	if m <= 2 {
		yy++
	}
	return int(yy), m, d
}

func civilOf(unix int64, nanos, offset int) civilTime {
	local := unix + int64(offset)
	days := floorDiv(local, 86400)
	sec := int(local - days*86400)
	c := civilTime{Hour: sec / 3600, Min: sec / 60 % 60, Sec: sec % 60, Nan: nanos, Offset: offset, Unix: unix}
	c.Y, c.M, c.D = civilFromDays(days)
	c.WD = int(((days+4)%7 + 7) % 7)
	c.YD = int(days-daysFromCivil(c.Y, 1, 1)) + 1
	thursday := days - int64((c.WD+6)%7) + 3
	c.ISOYear, _, _ = civilFromDays(thursday)
	c.ISOWeek = int(thursday-daysFromCivil(c.ISOYear, 1, 1))/7 + 1
	return c
}

func leapYear(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

func monthDays(y, m int) int {
	if m == 12 {
		return 31
	}
	return int(daysFromCivil(y, m+1, 1) - daysFromCivil(y, m, 1))
}

func civil(t time.Time) civilTime {
	_, off := t.Zone()
	return civilOf(t.Unix(), t.Nanosecond(), off)
}

var zoneNames = []string{
	"UTC", "Local", "Europe/Berlin", "Europe/London", "Europe/Dublin", "Africa/Casablanca", "America/New_York", "America/St_Johns",
	"America/Sao_Paulo", "Asia/Kolkata", "Asia/Kathmandu", "Asia/Tehran", "Australia/Lord_Howe", "Australia/Sydney", "Pacific/Apia",
	"Pacific/Kiritimati", "Pacific/Marquesas", "Pacific/Chatham", "America/Los_Angeles", "Asia/Tokyo", "Africa/Monrovia", "Antarctica/Troll",
	"CET", "EST", "Etc/GMT+12", "Etc/GMT-14", "Asia/Pyongyang", "America/Caracas",
}

func randZone(t *fw.T) *time.Location {
	if t.Chance(4) {
		off := t.IntN(2*14*3600) - 14*3600
		switch t.IntN(3) {
		case 0:
			off = off / 3600 * 3600
		case 1:
			off = off / 900 * 900
		}
		return time.FixedZone(fw.Pick(t, []string{"", "X", "myzone", "%d zone", "a\\b", "Zeit"}), off)
	}
	n := fw.Pick(t, zoneNames)
	if n == "Local" {
		return time.Local
	}
	l, err := time.LoadLocation(n)
	if err != nil {
		panic(err)
	}
	return l
}

// randTime returns a time in the years 1 to 9999 of its location.
func randTime(t *fw.T) time.Time {
	loc := randZone(t)
	for {
		var tm time.Time
		ns := 0
		switch t.IntN(6) {
		case 0:
			ns = t.IntN(1_000_000_000)
		case 1:
			ns = fw.Pick(t, []int{1, 999, 1000, 999_999, 1_000_000, 123_456, 999_999_999, 999_999_500, 120_000_000})
		}
		year := 1 + t.IntN(9999)
		if t.Chance(2) {
			year = 1960 + t.IntN(140)
		}
		switch t.IntN(6) {
		case 0: // around the turn of the year
			tm = time.Date(year, 12, 25+t.IntN(14), t.IntN(24), t.IntN(60), t.IntN(60), ns, loc)
		case 1: // end of February
			tm = time.Date(year, 2, 26+t.IntN(5), t.IntN(24), t.IntN(60), t.IntN(60), ns, loc)
		case 2: // special times of day
			tm = time.Date(year, time.Month(1+t.IntN(12)), 1+t.IntN(31), fw.Pick(t, []int{0, 1, 11, 12, 13, 23}), fw.Pick(t, []int{0, 0, 1, 59}), fw.Pick(t, []int{0, 0, 1, 59}), ns, loc)
		case 3: // close to a change of the clock
			tm = time.Date(1970+t.IntN(80), fw.Pick(t, []time.Month{3, 4, 9, 10, 11}), 1+t.IntN(31), t.IntN(5), t.IntN(60), t.IntN(60), ns, loc)
		default:
			tm = time.Date(year, time.Month(1+t.IntN(12)), 1+t.IntN(31), t.IntN(24), t.IntN(60), t.IntN(60), ns, loc)
		}
		if y := civil(tm).Y; y >= 1 && y <= 9999 {
			return tm
		}
	}
}

var (
	engWeekdays = []string{"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"}
	engMonths   = []string{"", "January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"}
	apMonths    = []string{"", "Jan.", "Feb.", "March", "April", "May", "June", "July", "Aug.", "Sept.", "Oct.", "Nov.", "Dec."}
)

const djangoChars = "aAbcdDeEfFgGhHiIjlLmMnNoOPrsStTuUwWyYzZ"

// djangoChar renders one format character. The result of c without the nine
// digits of the nanoseconds is accepted by the caller.
func (h *human) djangoChar(r rune, t time.Time) string {
	c := civil(t)
	zone, _ := t.Zone()
	h12 := (c.Hour+11)%12 + 1
	bit := func(b bool) string {
		if b {
			return "1"
		}
		return "0"
	}
	two := func(n int) string { return fmt.Sprintf("%02d", n) }
	offset := func() string {
		min, sign := c.Offset/60, "+"
		if min < 0 {
			min, sign = -min, "-"
		}
		return sign + two(min/60) + two(min%60)
	}
	ampm := func(lower bool) string {
		switch {
		case lower && c.Hour < 12:
			return h.tr("", "a.m.")
		case lower:
			return h.tr("", "p.m.")
		case c.Hour < 12:
			return h.tr("", "AM")
		}
		return h.tr("", "PM")
	}
	f := strconv.Itoa(h12)
	if c.Min != 0 {
		f += ":" + two(c.Min)
	}
	short := h.tr("", strings.ToLower(engMonths[c.M][:3]))
	switch r {
	case 'a':
		return ampm(true)
	case 'A':
		return ampm(false)
	case 'b':
		return short
	case 'c':
		return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d.%d", c.Y, c.M, c.D, c.Hour, c.Min, c.Sec, c.Nan)
	case 'd':
		return two(c.D)
	case 'D':
		return h.tr("", engWeekdays[c.WD][:3])
	case 'e':
		return zone
	case 'E':
		return h.tr("alt. month", engMonths[c.M])
	case 'f':
		return f
	case 'F':
		return h.tr("", engMonths[c.M])
	case 'g':
		return strconv.Itoa(h12)
	case 'G':
		return strconv.Itoa(c.Hour)
	case 'h':
		return two(h12)
	case 'H':
		return two(c.Hour)
	case 'i':
		return two(c.Min)
	case 'I':
		return bit(t.IsDST())
	case 'j':
		return strconv.Itoa(c.D)
	case 'l':
		return h.tr("", engWeekdays[c.WD])
	case 'L':
		return strconv.FormatBool(leapYear(c.Y))
	case 'm':
		return two(c.M)
	case 'M':
		rs := []rune(short)
		return string(unicode.ToUpper(rs[0])) + string(rs[1:])
	case 'n':
		return strconv.Itoa(c.M)
	case 'N':
		return h.tr("abbrev. month", apMonths[c.M])
	case 'o':
		return strconv.Itoa(c.ISOYear)
	case 'O':
		return offset()
	case 'P':
		switch {
		case c.Hour == 0 && c.Min == 0:
			return h.tr("", "midnight")
		case c.Hour == 12 && c.Min == 0:
			return h.tr("", "noon")
		}
		return f + " " + ampm(true)
	case 'r':
		return fmt.Sprintf("%s, %02d %s %04d %02d:%02d:%02d %s", engWeekdays[c.WD][:3], c.D, engMonths[c.M][:3], c.Y, c.Hour, c.Min, c.Sec, offset())
	case 's':
		return two(c.Sec)
	case 'S':
		switch {
		case c.D/10 == 1:
			return "th"
		case c.D%10 == 1:
			return "st"
		case c.D%10 == 2:
			return "nd"
		case c.D%10 == 3:
			return "rd"
		}
		return "th"
	case 't':
		return strconv.Itoa(monthDays(c.Y, c.M))
	case 'T':
		if n := time.Local.String(); n != "Local" {
			return n
		}
		z, _ := t.In(time.Local).Zone()
		return z
	case 'u':
		return fmt.Sprintf("%06d", c.Nan/1000)
	case 'U':
		return strconv.FormatInt(c.Unix, 10)
	case 'w':
		return strconv.Itoa(c.WD)
	case 'W':
		return strconv.Itoa(c.ISOWeek)
	case 'y':
		return two(c.Y % 100)
	case 'Y':
		return fmt.Sprintf("%04d", c.Y)
	case 'z':
		return strconv.Itoa(c.YD)
	case 'Z':
		return strconv.Itoa(c.Offset)
	}
	return string(r)
}

// django renders a format string.
func (h *human) django(t time.Time, format string) string {
	var b strings.Builder
	rs := []rune(format)
	for i := 0; i < len(rs); i++ {
		if rs[i] == '\\' {
			if i+1 < len(rs) {
				i++
			}
			b.WriteRune(rs[i])
			continue
		}
		b.WriteString(h.djangoChar(rs[i], t))
	}
	return b.String()
}

// formatTime is django including the predefined formats.
func (h *human) formatTime(t time.Time, format string) string {
	if f, ok := h.predefined()[format]; ok {
		format = f
	}
	return h.django(t, format)
}

func (h *human) predefined() map[string]string {
	return map[string]string{
		humanize.DateFormat: h.F.DateFormat, humanize.TimeFormat: h.F.TimeFormat, humanize.DateTimeFormat: h.F.DateTimeFormat,
		humanize.YearMonthFormat: h.F.YearMonthFormat, humanize.MonthDayFormat: h.F.MonthDayFormat,
		humanize.ShortDateFormat: h.F.ShortDateFormat, humanize.ShortDatetimeFormat: h.F.ShortDatetimeFormat,
	}
}

var predefinedNames = []string{
	humanize.DateFormat, humanize.TimeFormat, humanize.DateTimeFormat, humanize.YearMonthFormat, humanize.MonthDayFormat,
	humanize.ShortDateFormat, humanize.ShortDatetimeFormat,
}

func itoa(n int) string { return strconv.Itoa(n) }

func nineDigits(n int) string { return fmt.Sprintf("%09d", n) }
