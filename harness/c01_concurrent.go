package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"maps"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing/fstest"
	"time"
	_ "unsafe" // for go:linkname

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/catalog/poplural"
	"github.com/vorlif/spreak/humanize"

	"verifharness/fw"
	"verifharness/model"
)

// nanotime is the monotonic clock, also inside of a synctest bubble.
//
//go:linkname nanotime runtime.nanotime
func nanotime() int64

// cop is one call (or a short sequence of calls) that several goroutines make at once.
// While goroutines run, nothing of the harness may synchronise them (no locks, no
// atomics, no package fmt with its pool), because that would hide races from the
// detector: results are kept as they are and are rendered at the end.
type cop struct {
	Kind string
	Name string
	Run  func() []any
	Want string // expected by the model
	Has  bool
}

// cresult is one execution.
type cresult struct {
	op     int
	t0, t1 int64
	out    []any
	cbs    []error
	prints []printCall
	panic  any
	stack  string
}

type crec struct {
	cbs    []error
	prints []printCall
	depth  int
	id     int
}

func goid() uint64 {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	id := uint64(0)
	for _, c := range buf[len("goroutine "):n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + uint64(c-'0')
	}
	return id
}

// crun is the concurrent execution of a list of operations.
type crun struct {
	ops     []cop
	recs    map[uint64]*crec // by goroutine, read only once the goroutines are running
	hook    func(r *crec)    // additional behaviour of callbacks
	isSafe  bool             // no bubble: the wall clock may be used
	results [][]cresult
	steps   [][]cstep
	procs   int
}

type cstep struct {
	op    int
	yield int
}

func (c *crun) rec() *crec { return c.recs[goid()] }

func (c *crun) hooks() *whooks {
	return &whooks{
		callback: func(err error) {
			r := c.rec()
			if r.depth > 0 {
				return
			}
			r.cbs = append(r.cbs, err)
			if c.hook != nil {
				r.depth++
				c.hook(r)
				r.depth--
			}
		},
		print: func(p printCall) {
			r := c.rec()
			if r.depth > 0 {
				return
			}
			r.prints = append(r.prints, p)
			if c.hook != nil {
				r.depth++
				c.hook(r)
				r.depth--
			}
		},
	}
}

func (c *crun) exec(r *crec, op int) (res cresult) {
	res.op = op
	r.cbs, r.prints = nil, nil
	res.t0 = nanotime()
	res.panic, res.stack = fw.Try(func() { res.out = c.ops[op].Run() })
	res.t1 = nanotime()
	res.cbs, res.prints = r.cbs, r.prints
	return res
}

func (r *cresult) String() string {
	var b strings.Builder
	if r.panic != nil {
		return fmt.Sprintf("panic %v", r.panic)
	}
	for _, v := range r.out {
		switch x := v.(type) {
		case string:
			fmt.Fprintf(&b, "%q ", x)
		case error:
			fmt.Fprintf(&b, "%T %v ", x, x)
		default:
			fmt.Fprintf(&b, "%v ", x)
		}
	}
	for _, e := range r.cbs {
		fmt.Fprintf(&b, "| callback %T %v ", e, e)
	}
	for _, p := range r.prints {
		fmt.Fprintf(&b, "| print %s %q %v ", p.Tag, p.Str, p.Vars)
	}
	return b.String()
}

// plan makes the steps of every goroutine.
func (c *crun) plan(t *fw.T) {
	if stuckBefore.Load() {
		t.Skip("not run after a deadlock")
	}
	g := fw.Pick(t, []int{2, 2, 3, 4, 6, 8, 12})
	rounds := fw.Pick(t, []int{1, 1, 2, 3})
	c.procs = fw.Pick(t, []int{8, 8, 4, 3, 2, 1})
	hot := t.Chance(4) // all in the same order
	perm := t.Perm(len(c.ops))
	yields := fw.Pick(t, []int{0, 0, 3, 6})
	for i := 0; i < g; i++ {
		var steps []cstep
		for r := 0; r < rounds; r++ {
			if !hot {
				perm = t.Perm(len(c.ops))
			}
			for _, op := range perm {
				s := cstep{op: op}
				if yields > 0 && t.Chance(yields) {
					s.yield = 1 + t.IntN(3)
				}
				steps = append(steps, s)
			}
		}
		c.steps = append(c.steps, steps)
	}
}

// sequential executes every operation once.
func (c *crun) sequential() []string {
	r := &crec{}
	c.recs = map[uint64]*crec{goid(): r}
	hook := c.hook
	c.hook = nil
	defer func() { c.hook = hook }()
	out := make([]string, len(c.ops))
	for i := range c.ops {
		res := c.exec(r, i)
		if res.panic != nil {
			panic(fmt.Sprintf("%s: %v\n%s", c.ops[i].Name, res.panic, res.stack))
		}
		out[i] = res.String()
	}
	return out
}

// concurrent executes the plan; false if it does not end.
func (c *crun) concurrent() bool {
	n := len(c.steps)
	c.results = make([][]cresult, n)
	ids := make(chan [2]uint64, n)
	start := make(chan struct{})
	done := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ids <- [2]uint64{uint64(i), goid()}
			<-start
			r := c.recs[goid()]
			out := make([]cresult, 0, len(c.steps[i]))
			for _, s := range c.steps[i] {
				for k := 0; k < s.yield; k++ {
					runtime.Gosched()
				}
				out = append(out, c.exec(r, s.op))
			}
			c.results[i] = out
		}()
	}
	c.recs = map[uint64]*crec{}
	for i := 0; i < n; i++ {
		x := <-ids
		c.recs[x[1]] = &crec{id: int(x[0])}
	}
	old := runtime.GOMAXPROCS(c.procs)
	defer runtime.GOMAXPROCS(old)
	close(start)
	if !c.isSafe {
		wg.Wait() // in a bubble a deadlock is reported by the runtime
		return true
	}
	go func() { wg.Wait(); close(done) }()
	for {
		select {
		case <-done:
			return true
		case <-time.After(30 * time.Second):
		}
		cpu := fw.CPUSeconds()
		select {
		case <-done:
			return true
		case <-time.After(15 * time.Second):
		}
		if fw.CPUSeconds()-cpu < 3 {
			stuckBefore.Store(true)
			return false
		}
	}
}

// check runs the operations sequentially and concurrently and compares.
func (c *crun) check(t *fw.T) {
	if c.steps == nil {
		c.plan(t)
	}
	var before []string
	if t.Chance(4) { // usually the first use is a concurrent one
		before = c.sequential()
	}
	t.Note("%s", c)
	if !c.concurrent() {
		buf := make([]byte, 1<<20)
		t.Fail("deadlock", "the goroutines do not end\n%s", buf[:runtime.Stack(buf, true)])
	}
	after := c.sequential()
	for i, op := range c.ops {
		if before != nil && before[i] != after[i] {
			t.Fail("not-repeatable", "%s returned\n%s\nand after concurrent use\n%s", op.Name, before[i], after[i])
		}
		if op.Has {
			c.model(t, op, after[i])
		}
	}
	var order []cresult
	gs := map[int64]int{}
	for g, rs := range c.results {
		for _, r := range rs {
			t.Eval(1)
			if r.panic != nil {
				t.Fail("panic", "goroutine %d: %s: %v\n%s", g, c.ops[r.op].Name, r.panic, r.stack)
			}
			if got := r.String(); got != after[r.op] {
				t.Fail("result-"+c.ops[r.op].Kind, "goroutine %d: %s returned\n%s\nwhen nothing else is running\n%s", g, c.ops[r.op].Name, got, after[r.op])
			}
			order = append(order, r)
			gs[r.t0] = g
			t.Count("calls of "+c.ops[r.op].Kind, 1)
		}
	}
	// what was observed
	sort.SliceStable(order, func(i, j int) bool { return order[i].t0 < order[j].t0 })
	var seq strings.Builder
	overlaps := 0
	for i, r := range order {
		seq.WriteString(strconv.Itoa(gs[r.t0]) + "." + strconv.Itoa(r.op) + " ")
		for j := i + 1; j < len(order) && order[j].t0 < r.t1; j++ {
			if gs[order[j].t0] != gs[r.t0] {
				overlaps++
				a, b := c.ops[r.op].Kind, c.ops[order[j].op].Kind
				if a > b {
					a, b = b, a
				}
				t.Distinct("overlap", a, b, c.ops[r.op].Name == c.ops[order[j].op].Name)
			}
		}
	}
	t.Count("overlapping pairs of calls", overlaps)
	t.Count("goroutines", len(c.steps))
	t.Distinct("interleaving", seq.String())
	if raceEnabled {
		t.Count("cases under the race detector", 1)
	}
	t.Sample("%d goroutines on %d processors, %d operations such as %s -> %s; %d overlapping pairs of calls", len(c.steps), c.procs, len(c.ops), c.ops[0].Name, clipText(after[0], 120), overlaps)
}

func (c *crun) model(t *fw.T, op cop, got string) {
	if r := (&cresult{out: []any{op.Want}}).String(); !strings.HasPrefix(got, r) {
		t.Fail("model-"+op.Kind, "%s returns\n%s\nwant\n%s", op.Name, got, r)
	}
}

func (c *crun) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d goroutines, GOMAXPROCS %d\n", len(c.steps), c.procs)
	for i, op := range c.ops {
		fmt.Fprintf(&b, "op %d: %s %s\n", i, op.Kind, op.Name)
	}
	return b.String()
}

// quoted appends without package fmt.
func quoted(b []byte, ss ...string) []byte {
	for _, s := range ss {
		b = append(strconv.AppendQuote(b, s), ' ')
	}
	return b
}

// spoil overwrites a list that was handed out.
func spoil[E any](xs []E) {
	var zero E
	for i := range xs {
		xs[i] = zero
	}
	for i := len(xs); i < cap(xs); i++ {
		xs[:cap(xs)][i] = zero
	}
}

// messagesOf renders the messages of a catalog and destroys the copy afterwards.
func messagesOf(cat catalog.Catalog) string {
	var b []byte
	switch x := cat.(type) {
	case *catalog.GettextCatalog:
		b = quoted(b, x.Domain())
		b = append(b, x.Language().String()...)
		m := x.Messages()
		for _, ctx := range fw.SortedKeys(m) {
			for _, id := range fw.SortedKeys(m[ctx]) {
				msg := m[ctx][id]
				b = quoted(b, ctx, id)
				tr := msg.Translations()
				cl := msg.Clone()
				for _, k := range slices.Sorted(maps.Keys(tr)) {
					b = append(strconv.AppendInt(b, int64(k), 10), '=')
					b = quoted(b, tr[k], cl.Translations()[k])
				}
				for k := range tr {
					tr[k] = "spoiled"
				}
				tr[7] = "spoiled"
				*msg = *(&catalog.GettextMessage{}).Clone()
				delete(m[ctx], id)
			}
			m[ctx]["spoiled"] = (&catalog.GettextMessage{}).Clone()
			delete(m, ctx)
		}
		m["spoiled"] = nil
	case catalog.JSONCatalog:
		b = quoted(b, x.Domain())
		b = append(b, x.Language().String()...)
		m := x.Messages()
		for _, k := range fw.SortedKeys(m) {
			msg := m[k]
			b = quoted(b, k, msg.Context, msg.Comment)
			cl := msg.Clone()
			for _, c := range slices.Sorted(maps.Keys(msg.Translations)) {
				b = append(strconv.AppendInt(b, int64(c), 10), '=')
				b = quoted(b, msg.Translations[c], cl.Translations[c])
			}
			for c := range msg.Translations {
				msg.Translations[c] = "spoiled"
			}
			msg.Translations[cldrplural.Zero] = "spoiled"
			*msg = catalog.JSONMessage{Comment: "spoiled", Context: "spoiled"}
			delete(m, k)
		}
		m["spoiled"] = nil
	}
	return string(b)
}

func tagStrings(tags []language.Tag) []string {
	out := make([]string, len(tags))
	for i, l := range tags {
		out[i] = l.String()
	}
	return out
}

// worldOps makes operations on a world.
func worldOps(t *fw.T, w *world, n int) []cop {
	var ops []cop
	var locs []*wloc
	for i := 1 + t.IntN(3); i > 0; i-- {
		locs = append(locs, w.localizer(t))
	}
	add := func(kind, name string, run func() []any) {
		ops = append(ops, cop{Kind: kind, Name: name, Run: run})
	}
	var cats []*wcat
	for _, l := range w.Langs {
		for _, d := range liveDomains(w.Cats[l]) {
			cats = append(cats, w.Cats[l][d])
		}
	}
	args := func() []any {
		if len(w.Langs) == 0 || t.Chance(5) {
			return fw.Pick(t, [][]any{nil, {"-"}, {"mi"}, {42}})
		}
		return []any{tagOrText(t, fw.Pick(t, w.Langs)), "fr;q=0.4"}
	}
	for len(ops) < n {
		x := fw.Pick(t, locs)
		c := w.randCall(t, true)
		switch t.IntN(14) {
		default: // lookup with a shared localizer
			if t.Chance(2) {
				c.Vars = slices.Clone(c.Vars)
			}
			op := cop{Kind: "lookup", Name: x.Desc + ": " + c.String(), Run: func() []any { return []any{c.invoke(x)} }}
			if exp := w.expect(x, c); exp.Known {
				op.Want, op.Has = exp.Final, true
			}
			ops = append(ops, op)
		case 0, 1: // a localizer of its own
			a := args()
			name := fmt.Sprintf("NewLocalizer(%v) and %s", a, c)
			add("localizer", name, func() []any {
				l := spreak.NewLocalizer(w.Bundle, a...)
				y := &wloc{l: l, kl: spreak.NewKeyLocalizerForDomain(w.Bundle, l.DefaultDomain(), a...)}
				ds := l.Domains()
				out := []any{c.invoke(y), l.Language(), l.HasLocale(), l.DefaultDomain(), strings.Join(ds, ","), l.HasDomain("app")}
				spoil(ds)
				return out
			})
		case 2:
			add("bundle", "Domains, SupportedLanguages, CanLocalize", func() []any {
				ds, ls := w.Bundle.Domains(), w.Bundle.SupportedLanguages()
				out := []any{strings.Join(ds, ","), strings.Join(tagStrings(ls), ","), w.Bundle.CanLocalize()}
				spoil(ds)
				spoil(ls)
				return out
			})
		case 3:
			tag := randWorldTag(t)
			if len(w.Langs) > 0 && t.Chance(2) {
				tag = fw.Pick(t, w.Langs)
			}
			add("bundle", "IsLanguageSupported("+tag.String()+")", func() []any { return []any{w.Bundle.IsLanguageSupported(tag)} })
		case 4:
			add("localizer", x.Desc+": queries", func() []any {
				ds := x.l.Domains()
				out := []any{x.l.Language(), x.l.HasLocale(), strings.Join(ds, ","), x.l.HasDomain("")}
				spoil(ds)
				return out
			})
		case 5:
			c.Key = false
			c.Via = "LocalizeWithError"
			c.Num = wnum{V: 1 + t.IntN(4)}
			add("errors", x.Desc+": LocalizeWithError, LocalizeError "+c.String(), func() []any {
				s, err := x.l.LocalizeWithError(c.localizable())
				return []any{s, err, x.l.LocalizeError(wmessage{&c}), x.l.LocalizeError(stringError(c.ID))}
			})
		case 6:
			f := fw.Pick(t, []string{"plain", "%d of %d", "%v", "100%"})
			vars := fw.Pick(t, worldVars)
			add("print", x.Desc+": Print "+f, func() []any { return []any{x.l.Print(f, vars...)} })
		case 7, 8:
			if len(cats) == 0 {
				continue
			}
			cat := fw.Pick(t, cats)
			num := c.Num
			if !c.N {
				num = randNum(t, true, true)
			}
			add("catalog", fmt.Sprintf("%s %s %q: Lookup, LookupPlural(%q, %q, %s)", cat.Kind, cat.Tag, cat.Domain, c.Ctx, c.ID, num.Name), func() []any {
				s1, e1 := cat.Real.Lookup(c.Ctx, c.ID)
				s2, e2 := cat.Real.LookupPlural(c.Ctx, c.ID, num.V)
				return []any{s1, e1, s2, e2, cat.Real.Language()}
			})
		case 9:
			if len(cats) == 0 {
				continue
			}
			cat := fw.Pick(t, cats)
			add("messages", fmt.Sprintf("%s %s %q: Messages", cat.Kind, cat.Tag, cat.Domain), func() []any {
				out := []any{messagesOf(cat.Real)}
				if j, ok := cat.Real.(catalog.JSONCatalog); ok {
					var b bytes.Buffer
					err := catalog.NewJSONEncoder(&b).Encode(j)
					m, err2 := json.Marshal(j)
					out = append(out, b.String(), err, string(m), err2)
				}
				return out
			})
		}
	}
	return ops
}

type stringError string

func (e stringError) Error() string { return string(e) }

// ruleOps are operations on plural rules.
func ruleOps(t *fw.T, n int) []cop {
	var ops []cop
	add := func(kind, name string, run func() []any) {
		ops = append(ops, cop{Kind: kind, Name: name, Run: run})
	}
	var sharedRule *poplural.Rule
	header := "nplurals=4; plural=" + randCExpr(t, 4).Text(func() bool { return t.Chance(4) }, func() string { return " " }) + ";"
	if t.Chance(3) {
		header = fw.Pick(t, allPluralForms())
	}
	sharedRule, _ = poplural.Parse(header)
	conds := map[cldrplural.Category]string{cldrplural.One: randCond(t) + ruleSamples, cldrplural.Few: randCond(t) + ruleSamples, cldrplural.Other: ""}
	sharedSet, _ := cldrplural.ParseRules(conds)
	tag := randWorldTag(t)
	fn, _ := poplural.ForLanguage(tag)
	set, _ := cldrplural.ForLanguage(tag)
	for len(ops) < n {
		num := randNum(t, true, true)
		switch t.IntN(8) {
		case 0:
			if sharedRule == nil {
				continue
			}
			add("plural", "Rule "+header+" for "+num.Name, func() []any { i, err := sharedRule.Evaluate(num.V); return []any{i, err} })
		case 1:
			if sharedSet == nil {
				continue
			}
			add("plural", fmt.Sprintf("ParseRules(%v) for %s", conds, num.Name), func() []any { c, err := sharedSet.Evaluate(num.V); return []any{c, err} })
		case 2:
			add("plural", fmt.Sprintf("poplural function of %s for %s", tag, num.Name), func() []any { i, err := fn(num.V); return []any{i, err} })
		case 3:
			add("plural", fmt.Sprintf("cldrplural rules of %s for %s", tag, num.Name), func() []any { c, err := set.Evaluate(num.V); return []any{c, err} })
		case 4:
			l := randTag(t, cldrLangs, t.IntN(2*len(cldrLangs)))
			add("plural", fmt.Sprintf("poplural.ForLanguage(%s) for %s", l, num.Name), func() []any {
				f, ok := poplural.ForLanguage(l)
				i, err := f(num.V)
				return []any{ok, i, err}
			})
		case 5:
			l := randTag(t, cldrLangs, t.IntN(2*len(cldrLangs)))
			add("plural", fmt.Sprintf("cldrplural.ForLanguage(%s) for %s", l, num.Name), func() []any {
				s, ok := cldrplural.ForLanguage(l)
				c, err := s.Evaluate(num.V)
				return []any{ok, c, err, len(s.Categories)}
			})
		case 6:
			h := header
			if t.Chance(2) {
				h = fw.Pick(t, allPluralForms())
			}
			add("parse", "poplural.Parse("+h+")", func() []any {
				r, err := poplural.Parse(h)
				if err != nil {
					return []any{err}
				}
				i, err := r.Evaluate(num.V)
				return []any{r.NPlurals, i, err}
			})
		case 7:
			cs := maps.Clone(conds)
			add("parse", fmt.Sprintf("cldrplural.ParseRules(%v)", cs), func() []any {
				s, err := cldrplural.ParseRules(cs)
				if err != nil {
					return []any{err}
				}
				c, err := s.Evaluate(num.V)
				o, err2 := cldrplural.NewOperands(num.V)
				out := []any{c, err, err2}
				if err2 == nil {
					out = append(out, *o, s.FormFunc(o))
				}
				return out
			})
		}
	}
	return ops
}

// fileOps are operations on independent files and objects.
func fileOps(t *fw.T, n int) []cop {
	var ops []cop
	poDec, poCldr, moDec, jsonDec := catalog.NewPoDecoder(), catalog.NewPoCLDRDecoder(), catalog.NewMoDecoder(), catalog.NewJSONDecoder()
	for len(ops) < n {
		tag := randWorldTag(t)
		mc := model.Gen(t.Rand, model.Opts{Level: t.IntN(3), Entries: 1 + t.IntN(8), Forms: 2, Comments: t.Chance(2)})
		genHeader(t, mc, 1)
		switch t.IntN(5) {
		case 0, 1:
			text := mc.PO(t.Rand, model.RandLayout(t.Rand))
			width := fw.Pick(t, []int{0, 20, 80})
			ops = append(ops, cop{Kind: "po file", Name: "po.ParseString and Encode of " + strconv.Quote(clipText(text, 300)), Run: func() []any {
				f, err := po.ParseString(text)
				if err != nil {
					return []any{err}
				}
				var b bytes.Buffer
				enc := po.NewEncoder(&b)
				enc.SetWrapWidth(width)
				err = enc.Encode(f)
				m, err2 := po.Marshal(f)
				return []any{b.String(), err, string(m), err2, f.String()}
			}})
		case 2:
			data := []byte(mc.PO(t.Rand, model.RandLayout(t.Rand)))
			dec := fw.Pick(t, []catalog.Decoder{poDec, poCldr})
			ops = append(ops, cop{Kind: "decode", Name: "po decoder of " + tag.String(), Run: func() []any {
				c, err := dec.Decode(tag, "d", data)
				if err != nil {
					return []any{err}
				}
				return []any{messagesOf(c)}
			}})
		case 3:
			data := model.MO(t.Rand, mc.Pairs(), model.RandMOLayout(t.Rand))
			ops = append(ops, cop{Kind: "decode", Name: "mo decoder of " + tag.String(), Run: func() []any {
				c, err := moDec.Decode(tag, "d", data)
				if err != nil {
					return []any{err}
				}
				return []any{messagesOf(c)}
			}})
		case 4:
			set, _ := cldrFor(tag)
			msgs := genJSON(t, set, 1+t.IntN(6))
			data := jsonFile(t, msgs)
			ops = append(ops, cop{Kind: "decode", Name: "json decoder of " + tag.String() + " " + clipText(string(data), 300), Run: func() []any {
				c, err := jsonDec.Decode(tag, "d", data)
				if err != nil {
					return []any{err}
				}
				m, err := json.Marshal(c)
				return []any{messagesOf(c), string(m), err}
			}})
		}
	}
	return ops
}

// humanOps are operations on humanizers; the clock stands still at now.
func humanOps(t *fw.T, n int, now time.Time) []cop {
	var ops []cop
	var hs []*human
	for i := 1 + t.IntN(3); i > 0; i-- {
		hs = append(hs, randHuman(t))
	}
	coll, tags := allCollection(), []language.Tag{language.MustParse("de"), language.MustParse("pt-BR"), language.MustParse("zh-Hant"), language.MustParse("ar"), language.MustParse("en-GB"), language.MustParse("tlh"), language.MustParse("es-419")}
	for len(ops) < n {
		c := randHumanCall(t, now)
		if t.Chance(8) {
			tag := fw.Pick(t, tags)
			ops = append(ops, cop{Kind: "humanizer", Name: "CreateHumanizer(" + tag.String() + ") and " + c.Name, Run: func() []any {
				x := &human{H: coll.CreateHumanizer(tag)}
				return []any{c.Got(x)}
			}})
			continue
		}
		h := fw.Pick(t, hs)
		ops = append(ops, cop{Kind: "humanize", Name: h.Desc + ": " + c.Name, Run: func() []any { return []any{c.Got(h)} }, Want: c.Want(h), Has: true})
	}
	return ops
}

var (
	firstUseOnce atomic.Bool
	stuckBefore  atomic.Bool // after a deadlock the process is not used for further cases
)

func init() {
	register(&fw.Check{
		ID: "C01", QuickScale: 1,
		Rule:        "random operations on shared objects run in 2 to 12 goroutines at once, under the race detector (halting at the first report) and with random orders, yields and numbers of processors; the results, callbacks and printed messages of every single call equal those of the same call when nothing else is running, and the model. Counted: distinct interleavings (order of call starts, by a clock without synchronisation) and distinct pairs of overlapping calls",
		Shards:      13,
		MemLimit:    1,
		CPULimit:    120,
		Env:         []string{"GORACE=halt_on_error=1 history_size=3 atexit_sleep_ms=0"},
		Need:        []string{"cases under the race detector", "overlapping pairs of calls", "calls of lookup", "calls of localizer", "calls of bundle", "calls of errors", "calls of catalog", "calls of messages", "calls of plural", "calls of parse", "calls of po file", "calls of decode", "calls of humanize", "calls of humanizer", "calls of construct", "callbacks that wait for other goroutines", "callbacks that look up", "first uses in a process"},
		Assumptions: []string{"the race detector of the Go toolchain", "callbacks, print functions, loaders and matchers given by the caller are themselves safe for concurrent use"},
		MinNonTriv:  1000,
		Gens: []fw.Gen{
			{Name: "first-use", Quick: 40, Thor: 80, Run: c01first},
			{Name: "lookups", Quick: 700, Thor: 40000, Run: func(t *fw.T) {
				o := worldOpts{Dead: t.Chance(3), Print: fw.Pick(t, []int{0, 0, 3, 1, 2}), Callback: t.IntN(3) / 2, Verbs: t.Chance(2)}
				w := newWorld(t, o)
				c := &crun{isSafe: true}
				w.hooks = c.hooks()
				c.ops = worldOps(t, w, 2+t.IntN(fw.Pick(t, []int{3, 12, 30})))
				c.check(t)
			}},
			{Name: "callbacks", Quick: 150, Thor: 6000, Run: c01callbacks},
			{Name: "rules", Quick: 250, Thor: 12000, Run: func(t *fw.T) {
				c := &crun{isSafe: true, ops: ruleOps(t, 2+t.IntN(20))}
				c.check(t)
			}},
			{Name: "construct", Quick: 120, Thor: 6000, Run: func(t *fw.T) {
				c := &crun{isSafe: true, ops: fileOps(t, 1+t.IntN(8))}
				c.ops = append(c.ops, constructOps(t, c, 1+t.IntN(3))...)
				if t.Chance(2) {
					c.ops = append(c.ops, ruleOps(t, 3)...)
				}
				c.check(t)
			}},
			{Name: "humanize", Quick: 220, Thor: 12000, Run: func(t *fw.T) {
				after := time.Duration(t.Int64N(int64(25 * 365 * 24 * time.Hour)))
				t.Sample("clock at 2000-01-01 + %v", after)
				inBubble(after, func() {
					c := &crun{}
					c.ops = humanOps(t, 2+t.IntN(25), time.Now())
					c.check(t)
				})
			}},
		},
	})
}

// constructOps build a bundle of its own in every goroutine and use it.
func constructOps(t *fw.T, c *crun, n int) []cop {
	var ops []cop
	for len(ops) < n {
		w := newWorld(t, worldOpts{Print: 0, Callback: 0, MaxLangs: 3})
		w.hooks = c.hooks()
		var calls []wcall
		for i := 0; i < 4; i++ {
			if x := w.randCall(t, false); w.expect(&wloc{Def: w.Default, Tag: w.fallbackTag()}, x).Known {
				calls = append(calls, x)
			}
		}
		if len(calls) == 0 {
			continue
		}
		ops = append(ops, cop{Kind: "construct", Name: fmt.Sprintf("NewBundle(%s) and %v", strings.Join(w.optDesc, ", "), calls), Run: func() []any {
			b, err := spreak.NewBundle(w.opts...)
			if err != nil {
				return []any{err}
			}
			out := []any{strings.Join(b.Domains(), ","), strings.Join(tagStrings(b.SupportedLanguages()), ",")}
			for i, call := range calls {
				var a []any
				if len(w.Langs) > 0 {
					a = append(a, w.Langs[i%len(w.Langs)])
				}
				x := &wloc{l: spreak.NewLocalizer(b, a...), kl: spreak.NewKeyLocalizer(b, a...)}
				out = append(out, call.invoke(x))
			}
			return out
		}})
	}
	return ops
}

// c01callbacks: callbacks and print functions that look up, and that wait until other goroutines are done.
func c01callbacks(t *fw.T) {
	w := newWorld(t, worldOpts{Dead: true, Print: fw.Pick(t, []int{0, 1, 2}), Callback: 1})
	c := &crun{isSafe: true}
	w.hooks = c.hooks()
	c.ops = worldOps(t, w, 4+t.IntN(12))
	inner := worldOps(t, w, 4)
	c.plan(t)
	if t.Chance(2) {
		t.Count("callbacks that look up", 1)
		c.hook = func(*crec) {
			for _, op := range inner {
				op.Run()
			}
		}
		c.check(t)
		return
	}
	// the first goroutine waits in its first callback for all others
	t.Count("callbacks that wait for other goroutines", 1)
	others := &sync.WaitGroup{}
	free := make(chan struct{})
	for i := 1; i < len(c.steps); i++ {
		others.Add(1)
		last := len(c.ops)
		for k := range c.steps[i] {
			c.steps[i][k].op %= last
		}
		c.ops = append(c.ops, cop{Kind: "lookup", Name: "end of goroutine " + strconv.Itoa(i), Run: func() []any { return nil }})
	}
	base := len(c.ops) - len(c.steps) + 1
	ended := make([]sync.Once, len(c.steps))
	for i := 1; i < len(c.steps); i++ {
		op := base + i - 1
		c.ops[op].Run = func() []any {
			ended[i].Do(others.Done)
			return nil
		}
		c.steps[i] = append(c.steps[i], cstep{op: op})
	}
	go func() { others.Wait(); close(free) }()
	waited := false // of goroutine 0 only
	c.hook = func(r *crec) {
		if r.id == 0 && !waited {
			waited = true
			<-free
		}
	}
	// no sequential run before: it would end the waiting
	t.Note("%s", c)
	if !c.concurrent() {
		buf := make([]byte, 1<<20)
		t.Fail("deadlock", "a callback that waits for other goroutines blocks them\n%s", buf[:runtime.Stack(buf, true)])
	}
	after := c.sequential()
	for g, rs := range c.results {
		for _, r := range rs {
			t.Eval(1)
			if r.panic != nil {
				t.Fail("panic", "goroutine %d: %s: %v\n%s", g, c.ops[r.op].Name, r.panic, r.stack)
			}
			if got := r.String(); got != after[r.op] {
				t.Fail("result-"+c.ops[r.op].Kind, "goroutine %d: %s returned\n%s\nwhen nothing else is running\n%s", g, c.ops[r.op].Name, got, after[r.op])
			}
		}
	}
	if waited {
		t.Count("a goroutine waited in a callback", 1)
		t.Distinct("waiting", len(c.steps), len(c.ops))
	}
	t.Sample("%d goroutines, the first one waits in its first callback for the end of the others", len(c.steps))
}

// c01first: nothing of the library was used in this process before.
func c01first(t *fw.T) {
	first := firstUseOnce.CompareAndSwap(false, true)
	var langs []language.Tag
	for i := 0; i < 3; i++ {
		langs = append(langs, language.MustParse(fw.Pick(t, worldLangs)))
	}
	fsys := fstest.MapFS{}
	for _, l := range langs {
		fsys[l.String()+"/app.po"] = &fstest.MapFile{Data: []byte("msgid \"\"\nmsgstr \"\"\n\"Plural-Forms: " + fw.Pick(t, allPluralForms()) + "\\n\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"" + l.String() + " zero\"\nmsgstr[1] \"" + l.String() + " one\"\n")}
		fsys[l.String()+"/other.json"] = &fstest.MapFile{Data: []byte(`{"a": {"one": "j1", "few": "jf", "many": "jm", "other": "jo ` + l.String() + `"}}`)}
	}
	var names []string
	for i := 0; i < 3; i++ {
		names = append(names, fw.Pick(t, localeKeys))
	}
	n := fw.Pick(t, []any{0, 1, 2, 3, 5, 11, 21, 100, "1.5", 2.5})
	c := &crun{isSafe: true}
	c.ops = append(c.ops,
		cop{Kind: "construct", Name: fmt.Sprintf("NewBundle %v and lookups of %v", langs, n), Run: func() []any {
			b, err := spreak.NewBundle(spreak.WithDomainFs("app", fsys), spreak.WithDomainFs("other", fsys), spreak.WithLanguage(langs[0], langs[1].String(), langs[2]), spreak.WithDefaultDomain("app"))
			if err != nil {
				return []any{err}
			}
			var out []any
			for _, l := range langs {
				x := spreak.NewLocalizer(b, l)
				out = append(out, x.Get("a"), x.NGetf("a", "b", n, n), x.DNGet("other", "a", "b", n), x.Getf("%d", 1234567))
			}
			return out
		}},
		cop{Kind: "humanizer", Name: fmt.Sprintf("humanize.New %v", names), Run: func() []any {
			var data []*humanize.LocaleData
			for _, k := range names {
				data = append(data, localePackages[k]())
			}
			col, err := humanize.New(humanize.WithLocale(data...))
			if err != nil {
				return []any{err}
			}
			var out []any
			tm := time.Date(2024, 2, 29, 13, 14, 15, 0, time.UTC)
			for _, k := range names {
				h := col.CreateHumanizer(language.MustParse(localeLanguages[k]))
				out = append(out, h.Intcomma(1234567), h.Intword(2500000), h.Ordinal(3), h.FilesizeFormat(123456), h.FormatTime(tm, humanize.DateTimeFormat), h.FormatTime(tm, "D, d M Y"), h.TimeSinceFrom(tm, tm.Add(50*24*time.Hour)), h.Apnumber(3))
			}
			return out
		}},
	)
	c.ops = append(c.ops, fileOps(t, 6)...)
	for i := 0; i < 8; i++ {
		l := fw.Pick(t, langs)
		h := fw.Pick(t, allPluralForms())
		c.ops = append(c.ops, cop{Kind: "plural", Name: fmt.Sprintf("rules of %s, %s for %v", l, h, n), Run: func() []any {
			f, ok := poplural.ForLanguage(l)
			i, err := f(n)
			s, ok2 := cldrplural.ForLanguage(l)
			k, err2 := s.Evaluate(n)
			r, err3 := poplural.Parse(h)
			if err3 != nil {
				return []any{err3}
			}
			j, err4 := r.Evaluate(n)
			return []any{ok, i, err, ok2, k, err2, r.NPlurals, j, err4}
		}})
	}
	c.plan(t)
	c.procs = 8
	if first {
		t.Count("first uses in a process", 1)
	}
	// never sequential before
	t.Note("%s", c)
	if !c.concurrent() {
		buf := make([]byte, 1<<20)
		t.Fail("deadlock", "the goroutines do not end\n%s", buf[:runtime.Stack(buf, true)])
	}
	after := c.sequential()
	for g, rs := range c.results {
		for _, r := range rs {
			t.Eval(1)
			t.Count("calls of "+c.ops[r.op].Kind, 1)
			if r.panic != nil {
				t.Fail("panic", "goroutine %d: %s: %v\n%s", g, c.ops[r.op].Name, r.panic, r.stack)
			}
			if got := r.String(); got != after[r.op] {
				t.Fail("result-"+c.ops[r.op].Kind, "goroutine %d: %s returned\n%s\nwhen nothing else is running\n%s", g, c.ops[r.op].Name, got, after[r.op])
			}
		}
	}
	t.Distinct("first", c.String())
	t.Sample("first use of %v and %v by %d goroutines at once", langs, names, len(c.steps))
}
