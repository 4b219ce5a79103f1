package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"runtime/debug"
	"slices"
	"strconv"
	"strings"
	"testing/fstest"
	"time"
	"unicode/utf8"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/catalog/poplural"
	poast "github.com/vorlif/spreak/catalog/poplural/ast"
	"github.com/vorlif/spreak/humanize"

	"verifharness/fw"
	"verifharness/model"
	"verifharness/oracle"
)

// A trace is everything that can be observed of objects made from inputs that depend only on the random
// source: two runs with the same source have to give the same lines, in whatever process and after whatever
// has happened before in it.
type trace struct {
	t     *fw.T
	lines []string
}

func (x *trace) add(format string, a ...any) {
	// quoted where it is not valid, as the lines are sent as JSON
	x.lines = append(x.lines, quoteInvalid(fmt.Sprintf(format, a...)))
}

func quoteInvalid(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	return strconv.Quote(s)
}

// again performs a read-only call twice.
func (x *trace) again(what string, f func() string) {
	a := f()
	if b := f(); a != b {
		x.add("NOT REPEATED %s: %s and then %s", what, a, b)
	}
	x.add("%s: %s", what, a)
}

func errTrace(err error) string {
	if err == nil {
		return "no error"
	}
	var b strings.Builder
	for e := err; e != nil; e = errors.Unwrap(e) {
		fmt.Fprintf(&b, "%T ", e)
	}
	return b.String() + err.Error()
}

var traces = map[string]func(x *trace){
	"bundles":  traceBundle,
	"failures": traceFailures,
	"po":       tracePO,
	"mo":       traceMO,
	"json":     traceJSON,
	"rules":    traceRules,
	"humanize": traceHuman,
}

var traceNames = fw.SortedKeys(traces)

func runTrace(kind string, t *fw.T) []string {
	x := &trace{t: t}
	if p, st := fw.Try(func() { traces[kind](x) }); p != nil {
		x.add("panic: %v %s", p, fw.PanicSite(st))
	}
	return x.lines
}

// preferText writes preferences without addresses.
func preferText(prefs []any) string {
	var out []string
	for _, p := range prefs {
		switch p.(type) {
		case string, language.Tag:
			out = append(out, fmt.Sprintf("%q", p))
		default:
			out = append(out, fmt.Sprintf("%T", p))
		}
	}
	return strings.Join(out, ", ")
}

func traceBundle(x *trace) {
	t := x.t
	w := newWorld(t, worldOpts{Dead: t.Chance(3), Print: -1, Callback: -1, Verbs: t.Chance(3)})
	x.add("languages %v", w.Bundle.SupportedLanguages())
	x.again("domains", func() string { return fmt.Sprintf("%q", w.Bundle.Domains()) })
	x.add("loads %q", w.loads)
	if w.printer != nil {
		x.add("printer %v %v %v", w.printer.inits, w.printer.gets, w.printer.early)
	}
	x.add("reported while creating: %v", w.cbs)
	for _, l := range w.Langs {
		for _, d := range liveDomains(w.Cats[l]) {
			x.add("%s %q %s", l, d, dumpCatalog(w.Cats[l][d].Real))
		}
	}
	for i := 0; i < 4; i++ {
		prefs := randPreferences(t)
		x.again("prefer "+preferText(prefs), func() string {
			l := spreak.NewLocalizer(w.Bundle, prefs...)
			return fmt.Sprintf("%s %v %q %q", l.Language(), l.HasLocale(), l.Domains(), l.DefaultDomain())
		})
		tag := randWorldTag(t)
		x.again("supported "+tag.String(), func() string { return fmt.Sprint(w.Bundle.IsLanguageSupported(tag)) })
	}
	var locs []*wloc
	for i := 0; i < 3; i++ {
		locs = append(locs, w.localizer(t))
	}
	var calls []func() string
	var first []string
	for i := 0; i < 16; i++ {
		l, c := fw.Pick(t, locs), w.randCall(t, true)
		f := func() string {
			w.reset()
			s := c.invoke(l)
			out := fmt.Sprintf("%s %s: %q", l.Desc, c, s)
			for _, e := range w.cbs {
				out += " reports " + errTrace(e)
			}
			for _, p := range w.prints {
				out += fmt.Sprintf(" prints %s %q %v", p.Tag, p.Str, p.Vars)
			}
			if !c.Key && c.Via != "" {
				s, err := l.l.LocalizeWithError(c.localizable())
				out += fmt.Sprintf(" %q %s", s, errTrace(err))
			}
			return out
		}
		calls = append(calls, f)
		first = append(first, f())
	}
	for _, i := range t.Perm(len(calls)) {
		if s := calls[i](); s != first[i] {
			x.add("NOT REPEATED %s and then %s", first[i], s)
		}
	}
	for _, s := range first {
		x.add("%s", s)
	}
}

// traceFailures creates bundles most of which cannot be created.
func traceFailures(x *trace) {
	t := x.t
	var langs []language.Tag
	for i := 1 + t.IntN(6); i > 0; i-- {
		langs = append(langs, randWorldTag(t))
	}
	var opts []spreak.BundleOption
	loads := []string{}
	n := 1 + t.IntN(4)
	for i := 0; i < n; i++ {
		d := worldDomains[i]
		fail := map[language.Tag]int{}
		for _, l := range langs {
			if t.Chance(3) {
				fail[l] = 1 + t.IntN(3)
			}
		}
		if t.Chance(2) {
			fsys := fstest.MapFS{"readme": {}}
			for _, l := range langs {
				data := fmt.Sprintf("msgid \"a\"\nmsgstr \"%s\"\n", l)
				switch fail[l] {
				case 1:
					continue
				case 2:
					data = "broken"
				}
				for _, p := range []string{l.String() + "/" + d, l.String() + "/LC_MESSAGES/" + d, d + "/" + l.String()} {
					if t.Chance(2) {
						fsys[strings.Trim(p, "/")+fw.Pick(t, []string{".po", ".mo", ".json"})] = &fstest.MapFile{Data: []byte(data)}
					}
				}
			}
			opts = append(opts, spreak.WithDomainFs(d, fsys))
			continue
		}
		opts = append(opts, spreak.WithDomainLoader(d, loaderFunc(func(l language.Tag, d string) (catalog.Catalog, error) {
			loads = append(loads, l.String()+" "+d)
			switch fail[l] {
			case 1:
				return nil, spreak.NewErrNotFound(l, "test", "domain %q", d)
			case 2:
				return nil, &injected{l, d}
			}
			return &tagCatalog{l, d}, nil
		})))
	}
	if t.Chance(2) {
		opts = append(opts, spreak.WithRequiredLanguage(fw.Pick(t, langs), fw.Pick(t, langs)))
	}
	if t.Chance(2) {
		opts = append(opts, spreak.WithFallbackLanguage(fw.Pick(t, langs)))
	}
	if t.Chance(3) {
		opts = append(opts, spreak.WithSourceLanguage(fw.Pick(t, langs)))
	}
	xs := []any{}
	for _, l := range langs {
		xs = append(xs, tagOrName(t, l))
	}
	opts = append(opts, spreak.WithLanguage(xs...))
	if t.Chance(6) {
		opts = append(opts, spreak.WithDomainFs(worldDomains[0], nil))
	}
	if t.Chance(6) {
		opts = append(opts, spreak.WithLanguage("no language!", "another one!"))
	}
	t.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	b, err := spreak.NewBundle(opts...)
	x.add("%s", errTrace(err))
	x.add("%q", loads)
	if b == nil {
		return
	}
	x.add("%v %q", b.SupportedLanguages(), b.Domains())
	for _, l := range langs {
		loc := spreak.NewLocalizer(b, l)
		x.add("%s: %s %v %q %q %q", l, loc.Language(), loc.HasLocale(), loc.Domains(), loc.Get("a"), loc.Get("lang"))
	}
}

func traceCatalog(x *trace, what string, cat catalog.Catalog, err error) {
	x.add("%s: %s", what, errTrace(err))
	if err != nil {
		return
	}
	x.again(what, func() string { return dumpCatalog(cat) })
	if j, ok := cat.(catalog.JSONCatalog); ok {
		x.again("encoded", func() string {
			var b bytes.Buffer
			err := catalog.NewJSONEncoder(&b).Encode(j)
			out, err2 := json.MarshalIndent(j, "", "\t")
			return fmt.Sprintf("%s %s %s %s", b.Bytes(), errTrace(err), out, errTrace(err2))
		})
	}
}

func headerText(h *po.Header) string {
	if h == nil {
		return "none"
	}
	out := fmt.Sprintf("%+v", h.Comment)
	for _, k := range []string{"Project-Id-Version", "Language", "Plural-Forms", "X-One", "Content-Type", "X-spreak-use-CLDR", "X"} {
		out += fmt.Sprintf(" %q", h.Get(k))
	}
	for _, k := range fw.SortedKeys(h.UnknownFields) {
		short := strings.TrimPrefix(k, "X-")
		out += fmt.Sprintf(" %q", []string{k, h.Get(k), h.Get(strings.ToUpper(k)), h.Get(short), h.Get("X-" + k), h.Get(short + "-"), h.Get(strings.TrimSpace(short))})
	}
	return out
}

func randEncoder(t *fw.T) encSettings {
	return encSettings{fw.Pick(t, []int{-1, 0, 1, 20, 40, 76, 80, 120}), !t.Chance(6), t.Chance(2), t.Chance(2), t.IntN(3)}
}

func encodePO(f *po.File, s encSettings) string {
	var b bytes.Buffer
	e := po.NewEncoder(&b)
	s.apply(e)
	if err := e.Encode(f); err != nil {
		return errTrace(err)
	}
	return b.String()
}

func tracePO(x *trace) {
	t := x.t
	mc := model.Gen(t.Rand, model.Opts{Level: t.IntN(3), Entries: 1 + t.IntN(14), Forms: 1 + t.IntN(4), Comments: true, Obsolete: t.Chance(2), Empty: t.Chance(3)})
	if t.Chance(2) {
		genHeader(t, mc, 1)
	}
	data := []byte(mc.PO(t.Rand, model.RandLayout(t.Rand)))
	if t.Chance(3) {
		data = mutate(t, data, dictionary["po"], 4)
	}
	f, err := po.Parse(data)
	x.add("parse: %s", errTrace(err))
	if err == nil {
		x.add("%s %s", headerText(f.Header), dumpAll(f))
		for i := 0; i < 2; i++ {
			s := randEncoder(t)
			if s.sort == 2 {
				s.sort = 0
			}
			x.again(fmt.Sprintf("encode %+v", s), func() string { return encodePO(f, s) })
		}
		x.again("string", func() string { return f.String() })
	}
	tag := randWorldTag(t)
	dec := fw.Pick(t, []func() catalog.Decoder{catalog.NewPoDecoder, catalog.NewPoCLDRDecoder})()
	cat, err := dec.Decode(tag, "d", data)
	traceCatalog(x, "catalog", cat, err)
	s := randEncoder(t)
	x.add("file %s", encodePO(fileOf(mc, t.Rand), s))
}

func traceMO(x *trace) {
	t := x.t
	c := newMOCase(t, t.IntN(3))
	data := model.MO(t.Rand, c.mc.Pairs(), model.RandMOLayout(t.Rand))
	if t.Chance(3) {
		data = mutate(t, data, dictionary["plural"], 3)
	}
	dec := fw.Pick(t, []func() catalog.Decoder{catalog.NewMoDecoder, catalog.NewMoCLDRDecoder})()
	cat, err := dec.Decode(c.tag, "d", data)
	traceCatalog(x, "catalog", cat, err)
}

func traceJSON(x *trace) {
	t := x.t
	tag := randTag(t, cldrLangs, t.IntN(2*len(cldrLangs)))
	set, _ := cldrFor(tag)
	ms := genJSON(t, set, 1+t.IntN(12))
	broken := t.Chance(2)
	if broken { // several faults at once: the same one has to be reported
		for i := range ms {
			if !t.Chance(3) {
				continue
			}
			switch t.IntN(3) {
			case 0:
				delete(ms[i].Forms, "Other")
			case 1:
				ms[i].Ctx = "other " + ms[i].Ctx
			case 2:
				ms[i].Key = fw.Pick(t, []string{"", ms[i].Key + " ", "_" + ms[i].Key})
			}
		}
	}
	in := catalog.JSONMessages{}
	for _, m := range ms {
		msg := m.message()
		in[m.Key] = msg
		if broken && t.Chance(5) {
			in[m.Key] = nil
		}
		if broken && t.Chance(5) {
			msg.Translations[cldrplural.Category(t.IntN(30)-10)] = "x"
			msg.Translations[cldrplural.Category(t.IntN(30)-10)] = "y"
		}
	}
	cat, err := catalog.NewJSONCatalogWithMessages(tag, "d", in)
	traceCatalog(x, "messages", cat, err)
	data := jsonFile(t, ms)
	if t.Chance(4) {
		data = mutate(t, data, dictionary["json"], 3)
	}
	if t.Chance(3) && len(data) > 2 { // messages of other kinds
		i := bytes.IndexByte(data, '{')
		extra := []string{`"l1": ["x"]`, `"l2": 3`, `"l3": {"other": 5}`, `"l4": {"one": "x"}`, `"l5": {"other": "a", "unknown": "x", "strange": "y"}`, `"l6": {"other": "x", "few": 1, "many": 2}`, `"l7": null`, `"": "x"`}
		for k := 1 + t.IntN(4); k > 0; k-- {
			data = slices.Concat(data[:i+1], []byte(fw.Pick(t, extra)+","), data[i+1:])
		}
	}
	c, err := catalog.NewJSONDecoder().Decode(tag, "d", data)
	traceCatalog(x, "decoded", c, err)
	other := catalog.NewJSONCatalog(tag, "d")
	x.add("unmarshal: %s", errTrace(json.Unmarshal(data, other)))
	keys := []string{}
	for k := range in {
		keys = append(keys, k)
	}
	slices.Sort(keys)
	for _, k := range keys {
		m := in[k]
		if m == nil || t.Chance(2) {
			continue
		}
		catalog.ApplyPluralCategoriesToJSONMessage(randTag(t, cldrLangs, t.IntN(len(cldrLangs))), m)
		x.add("apply %q", m.Translations)
	}
}

func traceRules(x *trace) {
	t := x.t
	raw := map[cldrplural.Category]string{}
	for k := 1 + t.IntN(6); k > 0; k-- {
		raw[cldrplural.Category(t.IntN(6))] = randCond(t) + fw.Pick(t, []string{"", ruleSamples})
	}
	if t.Chance(2) {
		raw[cldrplural.Other] = fw.Pick(t, []string{"", ruleSamples})
	}
	if t.Chance(3) {
		for k := 1 + t.IntN(4); k > 0; k-- {
			raw[cldrplural.Category(t.IntN(9)-1)] = soup(t.Rand, dictionary["cldr"], 1+t.IntN(8))
		}
	}
	rs, err := cldrplural.ParseRules(raw)
	x.add("%v: %s", raw, errTrace(err))
	var nums []any
	for i := 0; i < 14; i++ {
		n := randNum(t, true, true)
		nums = append(nums, n.V)
	}
	for i := 0; i < 8; i++ {
		nums = append(nums, decimalText(t))
	}
	eval := func(what string, rs *cldrplural.RuleSet) {
		x.add("%s: categories %v", what, rs.Categories)
		for i, n := range nums {
			x.again(fmt.Sprint(what, " number ", i), func() string {
				c, err := rs.Evaluate(n)
				return fmt.Sprint(c, " ", errTrace(err))
			})
		}
	}
	if err == nil {
		eval("parsed", rs)
	}
	tag := randTag(t, cldrLangs, t.IntN(3*len(cldrLangs)))
	rs, ok := cldrplural.ForLanguage(tag)
	x.add("%s %v", tag, ok)
	eval(tag.String(), rs)
	if ok { // what a caller does with the rules of a language does not matter to the next one
		cats := fmt.Sprint(rs.Categories)
		form := rs.FormFunc
		c := cldrplural.MustNewOperands("1")
		was := form(c)
		slices.Reverse(rs.Categories)
		if len(rs.Categories) > 0 {
			rs.Categories[t.IntN(len(rs.Categories))] = cldrplural.Category(t.IntN(6))
		}
		rs.Categories = append(rs.Categories[:0], cldrplural.Many)
		rs.FormFunc = func(*cldrplural.Operands) cldrplural.Category { return cldrplural.Zero }
		if again, _ := cldrplural.ForLanguage(tag); fmt.Sprint(again.Categories) != cats || again.FormFunc(c) != was {
			t.Fail("rules-changed", "after a change of the rules of %s the library returns the categories %v, before %s", tag, again.Categories, cats)
		}
		t.Count("rule sets changed", 1)
	}

	text := fmt.Sprintf("nplurals=%d; plural=%s;", 1+t.IntN(6), randCExpr(t, 3).Text(func() bool { return t.Chance(6) }, func() string { return fw.Pick(t, []string{"", " "}) }))
	if t.Chance(3) {
		text = string(mutate(t, []byte(text), dictionary["plural"], 3))
	}
	tree := func() string {
		f, err := poast.Parse(text)
		if err != nil {
			return errTrace(err)
		}
		out := poast.CompileToString(f)
		// what a caller does with a tree does not matter to the next one
		for node := f.Root; node != nil; {
			switch e := node.(type) {
			case *poast.ValueExpr:
				e.Value = 77
				node = nil
			case *poast.BinaryExpr:
				node, e.X = e.X, e.Y
			case *poast.QuestionMarkExpr:
				node = e.Cond
				e.T, e.F = e.F, e.T
			default:
				node = nil
			}
		}
		f.NPlurals, f.Root = 98, nil
		return out
	}
	if t.Chance(2) {
		x.again("tree", tree)
		t.Count("syntax trees changed", 1)
	}
	r, err := poplural.Parse(text)
	x.add("%q: %s", text, errTrace(err))
	if err == nil && t.Chance(2) {
		other, err := poplural.Parse(text)
		if err != nil || other.NPlurals != r.NPlurals {
			t.Fail("parse-again", "Parse(%q) returns the second time %v %+v", text, err, other)
		}
		other.NPlurals = 99
		other.FormFunc = nil
	}
	f, ok := poplural.ForLanguage(tag)
	x.add("%v", ok)
	for _, n := range nums {
		if err == nil {
			x.again("formula", func() string { k, err := r.Evaluate(n); return fmt.Sprint(k, errTrace(err)) })
		}
	}
	for _, n := range ruleNumbers(t, 8) {
		k, err := f(n)
		x.add("%d %d %s", n, k, errTrace(err))
	}
}

func traceHuman(x *trace) {
	t := x.t
	inBubble(time.Duration(t.IntN(1<<50)), func() {
		now := time.Now()
		var data []*humanize.LocaleData
		var names []string
		for i := t.IntN(4); i >= 0; i-- {
			k := fw.Pick(t, localeKeys)
			names = append(names, k)
			data = append(data, localePackages[k]())
		}
		c, err := humanize.New(humanize.WithLocale(data...))
		x.add("%q %s", names, errTrace(err))
		if err != nil {
			return
		}
		prefs := []any{fw.Pick(t, append(randPreferences(t), "de")), localeLanguages[fw.Pick(t, names)]}
		h := &human{H: c.CreateHumanizer(prefs...)}
		x.add("%s: %s", preferText(prefs), h.H.Language())
		var calls []hcall
		var first []string
		for i := 0; i < 25; i++ {
			call := randHumanCall(t, now)
			calls = append(calls, call)
			first = append(first, call.Got(h))
			x.add("%s %q", call.Name, first[i])
		}
		for _, i := range t.Perm(len(calls)) {
			if s := calls[i].Got(h); s != first[i] {
				x.add("NOT REPEATED %s: %q and then %q", calls[i].Name, first[i], s)
			}
		}
	})
}

func compareTraces(t *fw.T, key, kind string, want, got []string, how string) {
	for i := 0; i < max(len(want), len(got)); i++ {
		a, b := "nothing", "nothing"
		if i < len(want) {
			a = want[i]
		}
		if i < len(got) {
			b = got[i]
		}
		if a != b {
			k := 0
			for k < len(a) && k < len(b) && a[k] == b[k] {
				k++
			}
			k = max(0, k-200)
			t.Fail(key, "%s, %s: line %d is\n%s\nand then\n%s", kind, how, i, clipText(a[k:], 1500), clipText(b[k:], 1500))
		}
	}
}

// c28same creates the same things several times.
func c28same(kind string) func(t *fw.T) {
	return func(t *fw.T) {
		seed := t.Uint64()
		var first []string
		for i := 0; i < 5; i++ {
			x := &trace{t: t.Fork(seed)}
			traces[kind](x)
			for _, l := range x.lines {
				if strings.HasPrefix(l, "NOT REPEATED") {
					t.Fail("repeated-call", "%s: %s", kind, clipText(l, 3000))
				}
			}
			if i == 0 {
				first = x.lines
				t.Distinct(kind, strings.Join(first, "\n"))
				t.Sample("%d lines, the last one: %s", len(first), clipText(first[len(first)-1], 300))
				continue
			}
			t.Eval(len(first))
			compareTraces(t, "differs", kind, first, x.lines, fmt.Sprintf("creation %d", i+1))
			t.Count("repetitions: "+kind, 1)
		}
	}
}

type traceJob struct {
	Kind string
	Seed uint64
}

func (j traceJob) run(t *fw.T) []string { return runTrace(j.Kind, t) }

// traceMain is the other process.
func traceMain() {
	if os.Getenv("TRACE_GC") != "" {
		debug.SetGCPercent(1)
	}
	var jobs []traceJob
	if err := json.NewDecoder(os.Stdin).Decode(&jobs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	out := json.NewEncoder(os.Stdout)
	for _, j := range jobs {
		var lines []string
		t := fw.Detached(j.Seed)
		for _, v := range t.Protect(func() { lines = j.run(t) }) {
			lines = append(lines, "violation "+v.Key+" "+v.Msg)
		}
		_ = out.Encode(lines)
	}
}

// c28process repeats everything in other processes and in another order.
func c28process(t *fw.T) {
	var jobs []traceJob
	for i := 0; i < 24; i++ {
		jobs = append(jobs, traceJob{fw.Pick(t, traceNames), t.Uint64()})
	}
	var here [][]string
	for _, j := range jobs {
		here = append(here, j.run(t.Fork(j.Seed)))
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	order := t.Perm(len(jobs))
	parts := 1 + t.IntN(2)
	for p := 0; p < parts; p++ {
		mine := order[p*len(order)/parts : (p+1)*len(order)/parts]
		var todo []traceJob
		for _, i := range mine {
			todo = append(todo, jobs[i])
		}
		in, _ := json.Marshal(todo)
		cmd := exec.Command(exe, "trace")
		cmd.Stdin = bytes.NewReader(in)
		cmd.Dir = "/"
		for _, v := range os.Environ() {
			if k, _, _ := strings.Cut(v, "="); !strings.HasPrefix(k, "LC_") && k != "LANG" && k != "LANGUAGE" {
				cmd.Env = append(cmd.Env, v)
			}
		}
		if t.Chance(2) {
			l := fw.Pick(t, []string{"de_DE.UTF-8", "C", "tr_TR.UTF-8", "ar_EG", "fr"})
			cmd.Env = append(cmd.Env, "LANG="+l, "LC_ALL="+l, "LANGUAGE="+l)
		}
		cmd.Env = append(cmd.Env, fmt.Sprintf("GOMAXPROCS=%d", 1+t.IntN(4)))
		if t.Chance(4) {
			cmd.Env = append(cmd.Env, "TRACE_GC=1")
		}
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		out, err := cmd.Output()
		dec := json.NewDecoder(bytes.NewReader(out))
		for _, i := range mine {
			var lines []string
			if derr := dec.Decode(&lines); derr != nil {
				t.Fail("process", "the other process ended at a trace of %s: %v\n%s", jobs[i].Kind, err, clipText(stderr.String(), 3000))
			}
			t.Eval(len(lines))
			compareTraces(t, "process-differs", jobs[i].Kind, here[i], lines, "in another process")
			t.Count("other processes: "+jobs[i].Kind, 1)
			t.Distinct("process", jobs[i].Kind, strings.Join(lines, "\n"))
		}
	}
	t.Count("processes", parts)
	t.Sample("%d traces in %d other processes in the order %v", len(jobs), parts, order)
}

// ---- independent things in another order

func shuffled[E any](t *fw.T, xs []E) []E {
	ys := slices.Clone(xs)
	t.Shuffle(len(ys), func(i, j int) { ys[i], ys[j] = ys[j], ys[i] })
	return ys
}

func c28orderFiles(t *fw.T) {
	mc := model.Gen(t.Rand, model.Opts{Level: t.IntN(3), Entries: 2 + t.IntN(12), Forms: 1 + t.IntN(4), Comments: true, NoFuzzy: t.Chance(2), Empty: t.Chance(3)})
	genHeader(t, mc, 1)
	if !mc.HasHeader {
		mc.HasHeader = true
		mc.Header = []model.KV{{K: "Language", V: "de"}, {K: "X-One", V: "1"}, {K: "Plural-Forms", V: fw.Pick(t, allPluralForms())}, {K: "X-Two", V: "2"}}
	}
	seen := map[string]bool{}
	unique := mc.Header[:0:0]
	for _, kv := range mc.Header { // of repeated fields one wins
		if k := strings.ToLower(kv.K); !seen[k] {
			seen[k] = true
			unique = append(unique, kv)
		}
	}
	mc.Header = unique
	tag := randWorldTag(t)
	s := randEncoder(t)
	if s.sort == 2 {
		s.sort = 0
	}
	var cat0, mo0, enc0, set0 string
	for i := 0; i < 4; i++ {
		c := *mc
		if i > 0 {
			c.Entries, c.Header = shuffled(t, mc.Entries), shuffled(t, mc.Header)
		}
		data := []byte(c.PO(t.Rand, model.RandLayout(t.Rand)))
		cat, err := catalog.NewPoDecoder().Decode(tag, "d", data)
		if err != nil {
			t.Note("%s", data)
			t.Fail("decode", "%v", err)
		}
		mo, err := catalog.NewMoDecoder().Decode(tag, "d", model.MO(t.Rand, c.Pairs(), model.RandMOLayout(t.Rand)))
		if err != nil {
			t.Fail("decode", "mo: %v", err)
		}
		f := fileOf(&c, t.Rand)
		if c.HasHeader {
			f.Header = nil
			f.Header = headerOf(t, &c)
		}
		enc := encodePO(f, s)
		set := dumpSet(f)
		dc, dm := dumpCatalog(cat), dumpCatalog(mo)
		if i == 0 {
			cat0, mo0, enc0, set0 = dc, dm, enc, set
			t.Distinct("order", dc)
			t.Sample("%d messages, %d header fields, %+v", len(c.Entries), len(c.Header), s)
			continue
		}
		t.Eval(4)
		diff := func(what, a, b string) {
			if a != b {
				compareTraces(t, "order-"+what, what, strings.Split(a, "\n"), strings.Split(b, "\n"), "messages and header fields in another order")
			}
		}
		diff("po", cat0, dc)
		diff("mo", mo0, dm)
		diff("file", set0, set)
		diff("encoded", enc0, enc)
		t.Count("orders of messages and header fields", 1)
	}
}

// headerOf sets the fields in the order of the catalog.
func headerOf(t *fw.T, c *model.Catalog) *po.Header {
	h := &po.Header{}
	for _, kv := range c.Header {
		h.Set(kv.K, kv.V)
	}
	return h
}

// shuffleJSON writes the members of all objects in another order.
func shuffleJSON(t *fw.T, data []byte) []byte {
	var m map[string]json.RawMessage
	if json.Unmarshal(data, &m) != nil {
		return data
	}
	var b bytes.Buffer
	b.WriteByte('{')
	for i, k := range shuffled(t, fw.SortedKeys(m)) {
		if i > 0 {
			b.WriteByte(',')
		}
		kk, _ := json.Marshal(k)
		b.Write(kk)
		b.WriteByte(':')
		b.Write(shuffleJSON(t, m[k]))
	}
	b.WriteByte('}')
	return b.Bytes()
}

func c28orderJSON(t *fw.T) {
	tag := randTag(t, cldrLangs, t.IntN(2*len(cldrLangs)))
	set, _ := cldrFor(tag)
	ms := genJSON(t, set, 2+t.IntN(10))
	data := jsonFile(t, ms)
	var first, enc0 string
	for i := 0; i < 4; i++ {
		cat, err := catalog.NewJSONDecoder().Decode(tag, "d", data)
		if err != nil {
			if len(ms) == 0 {
				return
			}
			t.Fail("decode", "%v\n%s", err, data)
		}
		d := dumpCatalog(cat)
		e := string(jsonOf(t, cat.(catalog.JSONCatalog)))
		in := catalog.JSONMessages{}
		for _, m := range shuffled(t, ms) {
			in[m.Key] = m.message()
		}
		mem, err := catalog.NewJSONCatalogWithMessages(tag, "d", in)
		if err != nil {
			t.Fail("messages", "%v", err)
		}
		dm := dumpCatalog(mem)
		if i == 0 {
			first, enc0 = d, e
			t.Distinct("json", d)
			t.Sample("%d messages of %s", len(ms), tag)
		}
		t.Eval(3)
		compareTraces(t, "order-json", "json", strings.Split(first, "\n"), strings.Split(d, "\n"), "members in another order")
		compareTraces(t, "order-json", "messages", strings.Split(first, "\n"), strings.Split(dm, "\n"), "messages in another order")
		compareTraces(t, "order-json-encoded", "encoded json", strings.Split(enc0, "\n"), strings.Split(e, "\n"), "members in another order")
		data = shuffleJSON(t, data)
		t.Count("orders of json members", 1)
	}
}

// c28orderOptions creates bundles from the same options in other orders. The options which add languages keep
// their order among each other, as it is that of the languages.
func c28orderOptions(t *fw.T) {
	w := newWorld(t, worldOpts{Print: fw.Pick(t, []int{0, 1, 2, 3}), Callback: -1, Verbs: t.Chance(3)})
	var locs []*wloc
	var args [][]any
	for i := 0; i < 5; i++ {
		a := randPreferences(t)
		if t.Chance(2) && len(w.Langs) > 0 {
			a = []any{fw.Pick(t, w.Langs)}
		}
		args = append(args, a)
		locs = append(locs, &wloc{})
	}
	var calls []wcall
	for i := 0; i < 14; i++ {
		calls = append(calls, w.randCall(t, true))
	}
	observe := func(b *spreak.Bundle) []string {
		var out []string
		out = append(out, fmt.Sprintf("languages %v", b.SupportedLanguages()))
		doms := slices.Clone(b.Domains())
		slices.Sort(doms)
		out = append(out, fmt.Sprintf("domains %q", doms))
		for i, l := range locs {
			l.l, l.kl = spreak.NewLocalizer(b, args[i]...), spreak.NewKeyLocalizer(b, args[i]...)
			doms := slices.Clone(l.l.Domains())
			slices.Sort(doms)
			out = append(out, fmt.Sprintf("%s: %s %v %q %q", preferText(args[i]), l.l.Language(), l.l.HasLocale(), doms, l.l.DefaultDomain()))
		}
		for i, c := range calls {
			w.reset()
			s := c.invoke(locs[i%len(locs)])
			line := fmt.Sprintf("%s %s: %q", preferText(args[i%len(locs)]), c, s)
			for _, e := range w.cbs {
				line += " reports " + errTrace(e)
			}
			for _, p := range w.prints {
				line += fmt.Sprintf(" prints %s %q %v", p.Tag, p.Str, p.Vars)
			}
			out = append(out, line)
		}
		return out
	}
	first := observe(w.Bundle)
	t.Distinct("options", first)
	var lang, rest []int
	for i, d := range w.optDesc {
		k, _, _ := strings.Cut(d, " ")
		switch k {
		case "languages", "required", "source", "fallback":
			lang = append(lang, i)
		default:
			rest = append(rest, i)
		}
	}
	for k := 0; k < 4; k++ {
		order := slices.Clone(lang)
		for _, i := range shuffled(t, rest) {
			order = slices.Insert(order, t.IntN(len(order)+1), i)
		}
		var opts []spreak.BundleOption
		var desc []string
		for _, i := range order {
			opts = append(opts, w.opts[i])
			desc = append(desc, w.optDesc[i])
		}
		w.reset()
		if w.printer != nil {
			w.printer.inits, w.printer.gets, w.printer.early = nil, nil, false
		}
		b, err := spreak.NewBundle(opts...)
		if err != nil {
			t.Fail("bundle", "options %q: %v", desc, err)
		}
		if w.printer != nil && w.printer.early {
			t.Fail("printer", "options %q: the printer was used before Init", desc)
		}
		t.Eval(len(first))
		t.Count("orders of options", 1)
		compareTraces(t, "order-options", fmt.Sprintf("options %q", desc), first, observe(b), "in another order")
	}
	t.Sample("%q", w.optDesc)
}

// c28orderHuman creates humanizers from the same locales in other orders.
func c28orderHuman(t *fw.T) {
	inBubble(time.Duration(t.IntN(1<<50)), func() {
		now := time.Now()
		var names []string
		for i := 2 + t.IntN(5); i > 0; i-- {
			if k := fw.Pick(t, localeKeys); !slices.Contains(names, k) && k != "ptBR" {
				names = append(names, k)
			}
		}
		if t.Chance(8) {
			names = slices.DeleteFunc(slices.Clone(localeKeys), func(k string) bool { return k == "ptBR" })
		}
		var calls []hcall
		for i := 0; i < 20; i++ {
			calls = append(calls, randHumanCall(t, now))
		}
		asked := shuffled(t, names)[:min(3, len(names))]
		// every locale alone is the reference
		observe := func(c *humanize.Collection, name string) []string {
			h := &human{H: c.CreateHumanizer(language.MustParse(localeLanguages[name]))}
			out := []string{fmt.Sprint(name, " ", h.H.Language())}
			for _, call := range calls {
				out = append(out, call.Name+" "+call.Got(h))
			}
			return out
		}
		want := map[string][]string{}
		for _, n := range asked {
			want[n] = observe(humanize.MustNew(humanize.WithLocale(localePackages[n]())), n)
		}
		for k := 0; k < 3; k++ {
			order := shuffled(t, names)
			var opts []humanize.Option
			var part []*humanize.LocaleData
			for _, n := range order {
				part = append(part, localePackages[n]())
				if t.Chance(2) {
					opts = append(opts, humanize.WithLocale(part...))
					part = nil
				}
			}
			opts = append(opts, humanize.WithLocale(part...))
			c, err := humanize.New(opts...)
			if err != nil {
				t.Fail("create", "locales %q: %v", order, err)
			}
			for _, n := range asked {
				t.Eval(len(calls))
				compareTraces(t, "order-locales", n, want[n], observe(c, n), fmt.Sprintf("locales in the order %q", order))
			}
			t.Count("orders of locales", 1)
			t.Distinct("locales", order, asked)
		}
		t.Sample("%q", names)
	})
}

// c28orderFS: the files of a tree and the decoders are found the same way whatever else was loaded before.
func c28orderLoads(t *fw.T) {
	tags := []language.Tag{}
	for i := 2 + t.IntN(4); i > 0; i-- {
		tags = append(tags, randWorldTag(t))
	}
	fsys := fstest.MapFS{"readme": {}}
	for _, l := range append(tags, language.MustParse(fw.Pick(t, worldLangs))) {
		for _, p := range []string{"%s/app", "%s/LC_MESSAGES/app", "app/%s", "%s", "LC_MESSAGES/%s"} {
			if t.Chance(3) {
				b, _ := l.Base()
				name := fmt.Sprintf(p, fw.Pick(t, []string{l.String(), b.String(), strings.ReplaceAll(l.String(), "-", "_")}))
				fsys[name+".po"] = &fstest.MapFile{Data: []byte(fmt.Sprintf("msgid \"a\"\nmsgstr \"%s\"\n", name))}
			}
		}
	}
	type req struct {
		l language.Tag
		d string
	}
	var reqs []req
	for _, l := range tags {
		reqs = append(reqs, req{l, "app"}, req{l, ""})
	}
	want := map[req]string{}
	load := func(l spreak.Loader, r req) string {
		cat, err := l.Load(r.l, r.d)
		if err != nil {
			return errTrace(err)
		}
		return dumpCatalog(cat)
	}
	create := func() spreak.Loader {
		l, err := spreak.NewFilesystemLoader(spreak.WithFs(fs.FS(fsys)))
		if err != nil {
			t.Fail("loader", "%v", err)
		}
		return l
	}
	for _, r := range reqs { // every one with a new loader
		want[r] = load(create(), r)
	}
	for k := 0; k < 3; k++ {
		l := create()
		for _, r := range shuffled(t, append(reqs, reqs...)) {
			t.Eval(1)
			if got := load(l, r); got != want[r] {
				t.Fail("loads", "loading %s %q after others gives\n%s\nwant\n%s", r.l, r.d, got, want[r])
			}
		}
		t.Count("orders of loads", 1)
	}
	t.Distinct("loads", fmt.Sprint(want))
	t.Sample("%d files, %v", len(fsys), tags)
}

func init() {
	gens := []fw.Gen{
		{Name: "processes", Quick: 60, Thor: 1500, Run: c28process},
		{Name: "order-files", Quick: 700, Thor: 25000, Run: c28orderFiles},
		{Name: "order-json", Quick: 700, Thor: 25000, Run: c28orderJSON},
		{Name: "order-options", Quick: 600, Thor: 20000, Run: c28orderOptions},
		{Name: "order-locales", Quick: 120, Thor: 4000, Run: c28orderHuman},
		{Name: "order-loads", Quick: 500, Thor: 15000, Run: c28orderLoads},
	}
	need := []string{"processes", "orders of messages and header fields", "orders of json members", "orders of options", "orders of locales", "orders of loads"}
	for _, k := range traceNames {
		n := 500
		if k == "humanize" || k == "bundles" {
			n = 250
		}
		gens = append(gens, fw.Gen{Name: "same-" + k, Quick: n, Thor: 30 * n, Run: c28same(k)})
		need = append(need, "repetitions: "+k, "other processes: "+k)
	}
	_ = oracle.Categories
	register(&fw.Check{
		ID: "C28", QuickScale: 2,
		Rule:        "bundles, failing bundle creations, PO, MO and JSON catalogs, plural rules and humanizers are made five times from the same inputs, and in other processes with another order of the work, another environment and another number of threads; every observable result (languages, texts, errors, categories, bytes, reports, formatted arguments) is a line of a trace, and the traces have to be equal; independent messages, header fields, JSON members, options and locales are given in other orders. Non-trivial: each distinct trace",
		Assumptions: []string{"the clock and the time zone are the same in all runs", "options which add languages keep their order, as it is the order of the languages"},
		Need:        need,
		MinNonTriv:  2000,
		Gens:        gens,
	})
}
