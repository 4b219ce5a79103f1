package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"syscall"

	"golang.org/x/text/language"

	"verifharness/fw"
	"verifharness/oracle"
)

// The tools that write the built-in plural rules are run on rule files: the published rules and random ones. The
// package they write is compiled together with a program that answers questions about languages and numbers.

const repoDir = "/repo"

// workshop is a copy of the sources, without tests, in which a generator may overwrite files.
type workshop struct{ dir string }

func newWorkshop(t *fw.T, kind string) *workshop {
	dir, err := os.MkdirTemp("", "verif-gen-")
	if err != nil {
		panic(err)
	}
	w := &workshop{dir}
	err = filepath.WalkDir(repoDir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repoDir, p)
		if d.IsDir() {
			switch filepath.Base(p) {
			case ".git", "examples", "humanize", "testdata", ".github":
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dir, rel), 0o755)
		}
		if !d.Type().IsRegular() || strings.HasSuffix(p, "_test.go") || !strings.HasSuffix(p, ".go") && !strings.HasPrefix(rel, "go.") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dir, rel), b, 0o644)
	})
	if err != nil {
		w.close()
		panic(err)
	}
	ask := strings.ReplaceAll(askMain, "KIND", kind)
	ask = strings.ReplaceAll(ask, "EVAL", map[string]string{
		"cldrplural": `c, err := rule.Evaluate(n); if err == nil { r = c.String() } else { r = err.Error() }`,
		"poplural":   `c, err := rule(n); if err == nil { r = strconv.Itoa(c) } else { r = err.Error() }`,
	}[kind])
	if kind == "cldrplural" {
		ask = strings.ReplaceAll(ask, "MORE", `for _, c := range rule.Categories { a.Categories = append(a.Categories, c.String()) }`)
	} else {
		ask = strings.ReplaceAll(ask, "MORE", ``)
	}
	if err := os.MkdirAll(filepath.Join(dir, "verifask"), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "verifask", "main.go"), []byte(ask), 0o644); err != nil {
		panic(err)
	}
	return w
}

const askMain = `package main

import (
	"encoding/json"
	"os"
	"strconv"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog/KIND"
)

type question struct {
	Lang    string
	Numbers []string
}

type answer struct {
	Found      bool
	Categories []string
	Results    []string
}

var _ = strconv.Itoa

func main() {
	var qs []question
	if err := json.NewDecoder(os.Stdin).Decode(&qs); err != nil {
		panic(err)
	}
	var as []answer
	for _, q := range qs {
		rule, found := KIND.ForLanguage(language.MustParse(q.Lang))
		a := answer{Found: found}
		MORE
		for _, n := range q.Numbers {
			var r string
			if !found {
				break
			}
			EVAL
			a.Results = append(a.Results, r)
		}
		as = append(as, a)
	}
	if err := json.NewEncoder(os.Stdout).Encode(as); err != nil {
		panic(err)
	}
}
`

type question struct {
	Lang    string
	Numbers []string
}

type answer struct {
	Found      bool
	Categories []string
	Results    []string
}

func (w *workshop) close() { _ = os.RemoveAll(w.dir) }

// run executes a command in a directory of the workshop.
func (w *workshop) run(sub string, in []byte, name string, args ...string) (string, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = filepath.Join(w.dir, sub)
	cmd.Stdin = bytes.NewReader(in)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod -trimpath", "GOMAXPROCS=4")
	var out, errOut bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errOut
	err := cmd.Run()
	if err != nil {
		return out.String() + errOut.String(), err
	}
	return out.String(), nil
}

// generate runs the generator of the kind on a rule file and returns the program that answers questions.
func (w *workshop) generate(t *fw.T, kind, rules string) {
	sub := "catalog/" + kind + "/generator"
	if out, err := w.run("", nil, "go", "build", "-o", "rulegen", "./"+sub); err != nil {
		panic("the generator cannot be built: " + out)
	}
	if out, err := w.run("", nil, "go", "build", "-o", "ask", "./verifask"); err != nil {
		panic("the package cannot be built before its rules are replaced: " + out)
	}
	if err := os.WriteFile(filepath.Join(w.dir, sub, "plurals.json"), []byte(rules), 0o644); err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(w.dir, "catalog", kind, "builtin_gen.go"), []byte("not replaced"), 0o644); err != nil {
		panic(err)
	}
	if out, err := w.run(sub, nil, filepath.Join(w.dir, "rulegen")); err != nil {
		t.Fail("generator", "the generator fails: %s (%v)", clipText(out, 1500), err)
	}
	if out, err := w.run("", nil, "go", "build", "-o", "ask", "./verifask"); err != nil {
		if strings.Contains(out, "builtin_gen.go") {
			t.Fail("generated-source", "the source that the generator wrote does not compile: %s", clipText(out, 1500))
		}
		panic("go build: " + out)
	}
}

func (w *workshop) ask(qs []question) []answer {
	in, _ := json.Marshal(qs)
	out, err := w.run("", in, "./ask")
	if err != nil {
		panic("ask: " + out)
	}
	var as []answer
	if err := json.Unmarshal([]byte(out), &as); err != nil || len(as) != len(qs) {
		panic(fmt.Sprint("ask: ", err, len(as), out))
	}
	return as
}

// tests runs the tests that the generator wrote beside the rules.
func (w *workshop) tests(kind string) (string, error) {
	return w.run("", nil, "go", "test", "-count=1", "-vet=off", "./catalog/"+kind)
}

type genSet struct {
	langs []string
	set   *oracle.CLDRSet
	texts map[string]string // category -> text with samples
}

func numbersFor(t *fw.T, n int) []string {
	var out []string
	for i := 0; i <= 30; i++ {
		out = append(out, strconv.Itoa(i))
	}
	for i := 0; i < n; i++ {
		out = append(out, decimalText(t))
	}
	return out
}

var cldrSamples = []string{
	"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14", "15", "17", "20", "21", "22", "25", "100", "101", "102", "111", "1000", "1000000",
	"0.0", "0.1", "0.2", "1.0", "1.5", "1.00", "2.0", "2.1", "3.0", "10.0", "11.1", "12.5", "100.0", "0.01", "1.1c6", "1c6", "2c6", "1c3", "1.0000001c3",
}

// withSamples adds samples to the rules, for which the rule is the first one that applies.
func (g *genSet) withSamples(t *fw.T) {
	g.texts = map[string]string{}
	of := map[string][]string{}
	for _, s := range cldrSamples {
		n, ok := oracle.ParseNum(s)
		if !ok {
			panic(s)
		}
		c := g.set.Category(n)
		if t.Chance(2) {
			of[c] = append(of[c], s)
		}
	}
	for _, r := range append(slices.Clone(g.set.Rules), oracle.CLDRRule{Cat: "Other"}) {
		var ints, decs []string
		for _, s := range of[r.Cat] {
			if strings.Contains(s, ".") {
				decs = append(decs, s)
			} else {
				ints = append(ints, s)
			}
		}
		g.texts[r.Cat] = r.Text + " @integer " + strings.Join(append(ints, "…"), ", ") + " @decimal " + strings.Join(append(decs, "…"), ", ")
	}
}

func cldrFile(sets []*genSet) string {
	all := map[string]map[string]string{}
	for _, g := range sets {
		m := map[string]string{}
		for cat, text := range g.texts {
			m["pluralRule-count-"+strings.ToLower(cat)] = text
		}
		for _, l := range g.langs {
			all[l] = m
		}
	}
	b, err := json.MarshalIndent(map[string]any{"supplemental": map[string]any{
		"version":               map[string]string{"_unicodeVersion": "16.0.0", "_cldrVersion": "47"},
		"plurals-type-cardinal": all,
	}}, "", "  ")
	if err != nil {
		panic(err)
	}
	return string(b)
}

// genLangs returns languages which x/text does not replace by others, in a random order.
func genLangs(t *fw.T) []string {
	var out []string
	for _, set := range oracle.CLDRSets {
		for _, l := range set.Langs {
			if l != "en" && l != "und" && !strings.ContainsAny(l, "-_") && parsedTag(l) == l {
				out = append(out, l)
			}
		}
	}
	t.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return append([]string{"en"}, out...)
}

func checkCLDRGenerator(t *fw.T) {
	var sets []*genSet
	published := t.Idx == 0
	if published {
		for _, s := range oracle.CLDRSets {
			g := &genSet{langs: s.Langs, set: s}
			g.withSamples(t)
			sets = append(sets, g)
		}
	} else {
		langs := genLangs(t)
		for len(langs) > 0 && len(sets) < 40 {
			var rules []oracle.CLDRRule
			n := t.IntN(4)
			for _, cat := range oracle.Categories[:5] {
				if len(rules) < n && t.Chance(2) {
					rules = append(rules, oracle.CLDRRule{Cat: cat, Text: randCond(t)})
				}
			}
			var source *genSet // the rules and samples of another set for other categories
			if len(sets) > 0 && t.Chance(4) {
				source = fw.Pick(t, sets)
				if slices.Contains(source.set.Cats, "Many") {
					source = nil
				} else {
					rules = nil
					for _, r := range source.set.Rules {
						rules = append(rules, oracle.CLDRRule{Cat: oracle.Categories[slices.Index(oracle.Categories, r.Cat)+1], Text: r.Text})
					}
				}
			}
			g := &genSet{set: oracle.NewCLDRSet(rules)}
			k := min(len(langs), 1+t.IntN(3))
			g.langs, langs = langs[:k], langs[k:]
			if source == nil {
				g.withSamples(t)
			} else {
				g.texts = map[string]string{"Other": source.texts["Other"]}
				for _, r := range source.set.Rules {
					g.texts[oracle.Categories[slices.Index(oracle.Categories, r.Cat)+1]] = source.texts[r.Cat]
				}
				t.Count("rules of another set for other categories", 1)
			}
			sets = append(sets, g)
		}
	}
	w := newWorkshop(t, "cldrplural")
	defer w.close()
	file := cldrFile(sets)
	t.Note("plurals.json:\n%s", file)
	wrong := !published && t.Idx%2 == 1
	if wrong {
		g := fw.Pick(t, sets)
		for len(g.set.Rules) == 0 {
			g = fw.Pick(t, sets)
		}
		n, _ := oracle.ParseNum("7")
		if wrong = g.set.Category(n) != "Other" || len(g.set.Rules) > 0; wrong {
			cat := "Other"
			if g.set.Category(n) == "Other" {
				cat = g.set.Rules[0].Cat
			}
			sample := wrongSample(t, func(n int64) bool {
				num, _ := oracle.ParseNum(strconv.FormatInt(n, 10))
				return g.set.Category(num) == cat
			})
			g.texts[cat] = strings.Replace(g.texts[cat], " @integer ", " @integer "+sample+", ", 1)
			file = cldrFile(sets)
			t.Note("%s is a wrong sample for %s of %v", sample, cat, g.langs)
		}
	}
	w.generate(t, "cldrplural", file)
	var qs []question
	var of []*genSet
	for _, g := range sets {
		for _, l := range g.langs {
			qs = append(qs, question{l, numbersFor(t, 60)})
			of = append(of, g)
		}
	}
	unknown := "tlh"
	qs = append(qs, question{unknown, nil})
	for i, a := range w.ask(qs) {
		if i == len(of) {
			if a.Found {
				t.Fail("generated-unknown", "the generated package has rules for the language %s, the file has not", unknown)
			}
			break
		}
		g := of[i]
		if qs[i].Lang != "und" && (!published || !replacedTag(qs[i].Lang)) {
			if !a.Found {
				t.Fail("generated-missing", "the generated package has no rules for %s", qs[i].Lang)
			}
			if !slices.Equal(a.Categories, g.set.Cats) {
				t.Fail("generated-categories", "%s has the categories %v, the file %v", qs[i].Lang, a.Categories, g.set.Cats)
			}
			for j, s := range qs[i].Numbers {
				n, _ := oracle.ParseNum(s)
				t.Eval(1)
				if want := g.set.Category(n); a.Results[j] != want {
					t.Fail("generated-category", "%s: %s is %s, want %s (rules %v)", qs[i].Lang, s, a.Results[j], want, g.texts)
				}
				t.Distinct(g.set.Rules, s)
			}
			t.Count("generated CLDR languages", 1)
		}
	}
	out, err := w.tests("cldrplural")
	if wrong {
		if err == nil {
			t.Fail("generated-tests-weak", "the generated tests pass although a sample is wrong")
		}
		t.Count("wrong samples noticed", 1)
	} else {
		if err != nil {
			t.Fail("generated-tests", "the generated tests fail: %s", clipText(out, 1500))
		}
		t.Count("generated tests passed", 1)
	}
	t.Sample("%d rule sets, %d languages; first: %v", len(sets), len(of), sets[0].texts)
}

func randChainCond(t *fw.T, depth int) *oracle.CExpr {
	if depth > 0 && !t.Chance(3) {
		op := fw.Pick(t, []string{"&&", "||"})
		return &oracle.CExpr{Op: op, A: []*oracle.CExpr{randChainCond(t, depth-1), randChainCond(t, depth-1)}}
	}
	x := &oracle.CExpr{Op: "n"}
	if t.Chance(2) {
		x = &oracle.CExpr{Op: "%", A: []*oracle.CExpr{x, {Op: "num", Val: fw.Pick(t, []int64{2, 3, 10, 100, 1000, 1000000})}}}
	}
	return &oracle.CExpr{Op: fw.Pick(t, []string{"==", "==", "!=", "<", "<=", ">", ">="}), A: []*oracle.CExpr{x, {Op: "num", Val: int64(t.IntN(25))}}}
}

type genRule struct {
	langs    []string
	count    int
	expr     *oracle.CExpr
	formula  string
	cases    []string
	examples map[string]string
}

func checkGettextGenerator(t *fw.T) {
	var rules []*genRule
	published := t.Idx == 0
	if published {
		for _, r := range oracle.GettextRules {
			n, e := oracle.MustPlural(r.Text)
			var langs []string
			for _, l := range r.Langs {
				if !replacedTag(l) {
					langs = append(langs, l)
				}
			}
			rules = append(rules, &genRule{langs: langs, count: n, expr: e})
		}
	} else {
		langs := genLangs(t)
		for len(langs) > 0 && len(rules) < 40 {
			r := &genRule{count: 1 + t.IntN(6)}
			switch r.count {
			case 1:
				r.expr = &oracle.CExpr{Op: "num"}
			case 2:
				r.expr = randChainCond(t, 3)
			default:
				r.expr = &oracle.CExpr{Op: "num", Val: int64(r.count - 1)}
				for i := r.count - 2; i >= 0; i-- {
					r.expr = &oracle.CExpr{Op: "?:", A: []*oracle.CExpr{randChainCond(t, 2), {Op: "num", Val: int64(i)}, r.expr}}
				}
			}
			switch {
			case len(rules) > 0 && t.Chance(6): // the formula of other languages
				of := fw.Pick(t, rules)
				r.count, r.expr = of.count, of.expr
				t.Count("formulas given again", 1)
			case t.Chance(8): // one that is built in without languages
				count, expr := oracle.MustPlural(fw.Pick(t, commonPluralForms))
				if count > 2 || expr.Op != "?:" {
					r.count, r.expr = count, expr
					t.Count("common formulas given", 1)
				}
			}
			k := min(len(langs), 1+t.IntN(3))
			r.langs, langs = langs[:k], langs[k:]
			rules = append(rules, r)
		}
	}
	type entry struct {
		Name     string            `json:"name"`
		Formula  string            `json:"formula"`
		Plurals  int               `json:"plurals"`
		Cases    []string          `json:"cases"`
		Examples map[string]string `json:"examples"`
	}
	file := map[string]entry{}
	wrong := !published && t.Idx%2 == 1
	wrongRule := t.IntN(len(rules))
	for k := 0; wrong && k < 100; k++ { // one in which 7 has another form than 0, which other numbers have
		form := func(n int64) int64 {
			v, _ := rules[wrongRule].expr.Eval(n)
			return v
		}
		ends := slices.ContainsFunc(seq(120), func(n int64) bool { return form(n) == 0 && form(n+1) != 0 })
		if form(7) != 0 && (ends || k >= 50) {
			break
		}
		wrongRule = t.IntN(len(rules))
	}
	for i, r := range rules {
		parens := t.Chance(2) || published
		r.formula = r.expr.Text(func() bool { return false }, func() string { return fw.Pick(t, []string{" ", " ", " ", "", "  "}) })
		if parens {
			r.formula = publishedText(r.expr)
		}
		names := []string{"zero", "one", "two", "few", "many", "other"}
		r.cases, r.examples = nil, map[string]string{}
		for f := 0; f < r.count; f++ {
			r.cases = append(r.cases, names[f])
			var of []string
			for n := int64(0); n < 130; n++ {
				if v, _ := r.expr.Eval(n); v == int64(f) && t.Chance(3) {
					m := n
					for m < 130 {
						if v, _ := r.expr.Eval(m + 1); v != int64(f) {
							break
						}
						m++
					}
					if m > n && t.Chance(2) {
						of = append(of, fmt.Sprintf("%d~%d", n, m))
						n = m
					} else {
						of = append(of, strconv.FormatInt(n, 10))
					}
				}
			}
			if i == wrongRule && wrong && f == 0 {
				v, _ := r.expr.Eval(7)
				if v == 0 {
					wrong = false
				} else {
					example := wrongSample(t, func(n int64) bool {
						v, _ := r.expr.Eval(n)
						return v == 0
					})
					of = slices.Insert(of, t.IntN(len(of)+1), example)
					t.Note("%s is a wrong example of form 0 of %v", example, r.langs)
				}
			}
			if of != nil {
				r.examples[names[f]] = strings.Join(of, ", ") + fw.Pick(t, []string{"", ", …"})
			}
		}
		for _, l := range r.langs {
			file[l] = entry{"Language " + l, r.formula, r.count, r.cases, r.examples}
		}
	}
	b, _ := json.MarshalIndent(file, "", "  ")
	t.Note("plurals.json:\n%s", b)
	w := newWorkshop(t, "poplural")
	defer w.close()
	w.generate(t, "poplural", string(b))
	var qs []question
	var of []*genRule
	for _, r := range rules {
		for _, l := range r.langs {
			q := question{Lang: l}
			for n := 0; n < 125; n++ {
				q.Numbers = append(q.Numbers, strconv.Itoa(n))
			}
			for i := 0; i < 50; i++ {
				q.Numbers = append(q.Numbers, strconv.Itoa(fw.Pick(t, []int{200, 1000, 10000, 1000000, 2000000, 1 << 40})+t.IntN(130)))
			}
			qs = append(qs, q)
			of = append(of, r)
		}
	}
	qs = append(qs, question{"tlh", nil})
	for i, a := range w.ask(qs) {
		if i == len(of) {
			if a.Found {
				t.Fail("generated-unknown", "the generated package has a rule for the language tlh, the file has not")
			}
			break
		}
		if !a.Found {
			t.Fail("generated-missing", "the generated package has no rule for %s", qs[i].Lang)
		}
		for j, s := range qs[i].Numbers {
			n, _ := strconv.ParseInt(s, 10, 64)
			want, _ := of[i].expr.Eval(n)
			t.Eval(1)
			if a.Results[j] != strconv.FormatInt(want, 10) {
				t.Fail("generated-form", "%s: form of %s is %s, want %d (%s)", qs[i].Lang, s, a.Results[j], want, of[i].formula)
			}
			t.Distinct(of[i].formula, s)
		}
		t.Count("generated gettext languages", 1)
	}
	out, err := w.tests("poplural")
	if wrong {
		if err == nil {
			t.Fail("generated-tests-weak", "the generated tests pass although an example is wrong")
		}
		t.Count("wrong examples noticed", 1)
	} else {
		if err != nil {
			t.Fail("generated-tests", "the generated tests fail: %s", clipText(out, 1500))
		}
		t.Count("generated tests passed", 1)
	}
	t.Sample("%d rules, %d languages; last: %s", len(rules), len(of), rules[len(rules)-1].formula)
}

func seq(n int64) (of []int64) {
	for i := int64(0); i < n; i++ {
		of = append(of, i)
	}
	return of
}

// wrongSample is 7, which is wrong, or a range of two numbers of which one is wrong.
func wrongSample(t *fw.T, right func(n int64) bool) string {
	var ranges []string
	last := t.Idx/2%3 == 1
	for n := int64(0); n < 120; n++ {
		if right(n) == last && right(n+1) != last {
			ranges = append(ranges, fmt.Sprintf("%d~%d", n, n+1))
		}
	}
	if len(ranges) == 0 || t.Idx/2%3 == 0 {
		return "7"
	}
	if last {
		t.Count("wrong ends of ranges", 1)
	}
	return fw.Pick(t, ranges)
}

// publishedText writes a formula with parentheses around nested conditions, as the published file does.
func publishedText(e *oracle.CExpr) string {
	no, sp := func() bool { return false }, func() string { return " " }
	if e.Op == "?:" {
		cond := e.A[0].Text(no, sp)
		if op := e.A[0].Op; op == "&&" || op == "||" {
			cond = "(" + cond + ")"
		}
		rest := publishedText(e.A[2])
		if e.A[2].Op == "?:" {
			rest = "(" + rest + ")"
		}
		return cond + " ? " + e.A[1].Text(no, sp) + " : " + rest
	}
	return e.Text(no, sp)
}

func init() {
	register(&fw.Check{
		ID: "C29", QuickScale: 1,
		Rule: "the tools that write the built-in plural rules are run in a copy of the sources on rule files: the published rules and 40 random rule sets at a time, with right and with wrong samples; " +
			"the package they write is compiled and asked for languages and numbers, and the tests they write are run. Non-trivial: every comparison of a (rule, number), distinct",
		Assumptions: []string{"the source files are in the format the README files of the generators name; gettext rules have the form of the published ones: chains of conditions, which compare n or a remainder of n with a number"},
		Need:        []string{"generated CLDR languages", "generated gettext languages", "generated tests passed", "wrong samples noticed", "wrong examples noticed", "wrong ends of ranges", "formulas given again", "common formulas given"},
		MinNonTriv:  2000,
		MemLimit:    1,
		CPULimit:    300,
		Gens: []fw.Gen{
			{Name: "cldr", Quick: 10, Thor: 300, Run: checkCLDRGenerator},
			{Name: "gettext", Quick: 10, Thor: 300, Run: checkGettextGenerator},
		},
	})
}

func parsedTag(lang string) string { return language.MustParse(lang).String() }

// replacedTag reports languages for which x/text uses another tag.
func replacedTag(lang string) bool { return parsedTag(lang) != strings.ReplaceAll(lang, "_", "-") }
