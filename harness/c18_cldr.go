package main

import (
	"fmt"
	"slices"
	"strconv"
	"strings"

	"github.com/vorlif/spreak/catalog/cldrplural"
	cldrast "github.com/vorlif/spreak/catalog/cldrplural/ast"

	"verifharness/fw"
	"verifharness/oracle"
)

func catNames(cats []cldrplural.Category) []string {
	var out []string
	for _, c := range cats {
		out = append(out, c.String())
	}
	return out
}

// checkCLDRNumber compares the category of one number in every form it can be passed in.
func checkCLDRNumber(t *fw.T, rs *cldrplural.RuleSet, set *oracle.CLDRSet, text string) string {
	num, ok := oracle.ParseNum(text)
	if !ok {
		panic(text)
	}
	want := set.Category(num)
	t.Eval(1)
	got, err := rs.Evaluate(text)
	if err != nil || got.String() != want {
		t.Fail("category", "Evaluate(%q) = %v, %v; the published rules give %s", text, got, err, want)
	}
	if !slices.Contains(rs.Categories, got) {
		t.Fail("category-not-listed", "Evaluate(%q) = %v, which is not one of %v", text, got, rs.Categories)
	}
	if !strings.ContainsAny(text, ".c+") {
		i, err := strconv.ParseInt(text, 10, 64)
		if err != nil {
			panic(err)
		}
		t.Eval(1)
		if got, err := rs.Evaluate(i); err != nil || got.String() != want {
			t.Fail("category-int", "Evaluate(int64 %d) = %v, %v; the published rules give %s", i, got, err, want)
		}
	}
	return want
}

func randRel(t *fw.T) string {
	var b strings.Builder
	op := fw.Pick(t, []string{"n", "n", "i", "i", "v", "w", "f", "t", "c", "e"})
	b.WriteString(op)
	if t.Chance(2) {
		fmt.Fprintf(&b, " %% %d", fw.Pick(t, []int{2, 3, 10, 100, 1000, 1000000}))
	}
	b.WriteString(fw.Pick(t, []string{" = ", " != "}))
	for i := t.IntN(3); i >= 0; i-- {
		lo := t.IntN(25)
		if t.Chance(2) {
			fmt.Fprintf(&b, "%d", lo)
		} else {
			fmt.Fprintf(&b, "%d..%d", lo, lo+1+t.IntN(12))
		}
		if i > 0 {
			b.WriteByte(',')
		}
	}
	return b.String()
}

func randCond(t *fw.T) string {
	var ors []string
	for i := t.IntN(3); i >= 0; i-- {
		var ands []string
		for j := t.IntN(3); j >= 0; j-- {
			ands = append(ands, randRel(t))
		}
		ors = append(ors, strings.Join(ands, " and "))
	}
	return strings.Join(ors, " or ")
}

// respell writes a rule with other white space.
func respell(t *fw.T, text string) string {
	if !t.Chance(3) {
		return text
	}
	var b strings.Builder
	for i := 0; i < len(text); i++ {
		rest := text[i:]
		switch {
		case strings.HasPrefix(rest, "..") && i > 0 && !strings.HasPrefix(rest, "..."):
			b.WriteString(fw.Pick(t, []string{"..", "..", " .. ", "  ..\t"}))
			i++
		case strings.HasPrefix(rest, "..."):
			b.WriteString("...")
			i += 2
		case text[i] == '~':
			b.WriteString(fw.Pick(t, []string{"~", "~", " ~ "}))
		case text[i] == ' ':
			b.WriteString(fw.Pick(t, []string{" ", " ", " ", "  ", "\t", "\n", "\r\n", " \v\f"}))
		case text[i] == ',':
			b.WriteString(fw.Pick(t, []string{",", ",", ", ", " , ", " ,"}))
		default:
			b.WriteByte(text[i])
		}
	}
	t.Count("rules with other white space", 1)
	return b.String()
}

// printTree writes a syntax tree the way randCond writes a condition, and lists the nodes in that order.
func printTree(n cldrast.Node, nodes *[]cldrast.Node) string {
	*nodes = append(*nodes, n)
	switch n := n.(type) {
	case *cldrast.BinaryExpr:
		op := " or "
		if n.Type() == cldrast.And {
			op = " and "
		}
		x := printTree(n.X, nodes)
		return x + op + printTree(n.Y, nodes)
	case *cldrast.InRelationExpr:
		op := " != "
		if n.Type() == cldrast.Equal {
			op = " = "
		}
		x := printTree(n.X, nodes)
		return x + op + printTree(n.Y, nodes)
	case *cldrast.ModuloExpr:
		return printTree(n.Op, nodes) + fmt.Sprintf(" %% %d", n.Value)
	case *cldrast.OperandExpr:
		return n.Operand
	case *cldrast.RangeListExpr:
		x := printTree(n.X, nodes)
		if y, ok := n.Y.(*cldrast.RangeListExpr); ok && y != nil {
			return x + "," + printTree(y, nodes)
		}
		return x
	case *cldrast.RangeExpr:
		return fmt.Sprintf("%d..%d", n.From, n.To)
	case *cldrast.ValueExpr:
		return strconv.FormatInt(n.Value, 10)
	}
	return fmt.Sprintf("<%T>", n)
}

// andAboveOr reports whether an "or" lies below an "and", which no condition without parentheses can mean.
func andAboveOr(n cldrast.Node, below bool) bool {
	b, ok := n.(*cldrast.BinaryExpr)
	if !ok {
		return false
	}
	if b.Type() == cldrast.Or && below {
		return true
	}
	below = below || b.Type() == cldrast.And
	return andAboveOr(b.X, below) || andAboveOr(b.Y, below)
}

// visitor records the calls of Walk and stops below the nodes it should skip.
type visitor struct {
	log  *[]cldrast.Node
	skip map[cldrast.Node]bool
}

func (v visitor) Visit(n cldrast.Node) cldrast.Visitor {
	*v.log = append(*v.log, n)
	if n != nil && v.skip[n] {
		return nil
	}
	return v
}

func wantVisits(n cldrast.Node, skip map[cldrast.Node]bool, log *[]cldrast.Node) {
	*log = append(*log, n)
	if skip[n] {
		return
	}
	switch n := n.(type) {
	case *cldrast.BinaryExpr:
		wantVisits(n.X, skip, log)
		wantVisits(n.Y, skip, log)
	case *cldrast.InRelationExpr:
		wantVisits(n.X, skip, log)
		wantVisits(n.Y, skip, log)
	case *cldrast.ModuloExpr:
		wantVisits(n.Op, skip, log)
	case *cldrast.RangeListExpr:
		wantVisits(n.X, skip, log)
		if y, ok := n.Y.(*cldrast.RangeListExpr); ok && y != nil {
			wantVisits(y, skip, log)
		}
	}
	*log = append(*log, nil)
}

// randSamples writes a list of samples and returns the values it stands for.
func randSamples(t *fw.T) (text string, values []string) {
	for _, kind := range []string{"@integer", "@decimal"} {
		if t.Chance(4) {
			continue
		}
		var parts []string
		for i := t.IntN(5); i >= 0; i-- {
			digits := 0
			if kind == "@decimal" {
				digits = 1 + t.IntN(3)
			}
			scale := 1
			for j := 0; j < digits; j++ {
				scale *= 10
			}
			write := func(v int) string {
				if digits == 0 {
					return strconv.Itoa(v)
				}
				return fmt.Sprintf("%d.%0*d", v/scale, digits, v%scale)
			}
			from := fw.Pick(t, []int{0, 1, 9, 90, 99, 995, t.IntN(2000)})
			switch t.IntN(3) {
			case 0:
				n := 1 + t.IntN(30)
				parts = append(parts, write(from)+"~"+write(from+n))
				for j := 0; j <= n; j++ {
					values = append(values, write(from+j))
				}
			case 1:
				parts = append(parts, write(from))
				values = append(values, write(from))
			case 2:
				v := fw.Pick(t, []string{"1c6", "2c3", "1000000c3", "16c6"})
				if digits > 0 {
					v = fw.Pick(t, []string{"1.1c6", "0.0c3", "2.0001c3", "10.0c12"})
				}
				parts = append(parts, v)
				values = append(values, v)
			}
		}
		text += " " + kind + " " + strings.Join(parts, ", ")
		if t.Chance(2) {
			text += fw.Pick(t, []string{", …", ", ..."})
		}
	}
	return text, values
}

const ruleSamples = " @integer 0, 2~19, 100, 1000, 1c6, … @decimal 0.0~1.5, 10.0, 1.1c6, …"

func init() {
	catByName := map[string]cldrplural.Category{}
	for c, n := range cldrplural.CategoryNames {
		catByName[n] = c
	}
	register(&fw.Check{
		ID:          "C18",
		Rule:        "every language with rules (then random regional, script and extension variants and languages without rules) x random decimal and compact texts; rule sets parsed from the published texts and from random conditions; syntax trees of random rules with samples, printed back, walked in full and with branches left out. Non-trivial: at least three categories or more were seen for the set, counted per distinct (set, number)",
		Assumptions: []string{"the published rules are the table oracle/cldr.txt, which was extracted from the rule texts named in the sources and reviewed", "numbers have at most 15 significant digits, so that the float operand n is exact"},
		Need:        []string{"variants resolved to a parent", "languages without rules", "numbers with compact exponent", "numbers with fraction", "random rules", "trees walked", "rules with samples only", "rules with other white space", "invalid rules refused", "random rules for several categories"},
		MinNonTriv:  2000,
		Gens: []fw.Gen{
			{Name: "languages", Quick: 6000, Thor: 300000, Run: func(t *fw.T) {
				tag := randTag(t, cldrLangs, t.Idx)
				set, known := cldrFor(tag)
				t.Note("language %s, rules of %v", tag, set.Langs)
				rs, found := cldrplural.ForLanguage(tag)
				if found != known {
					t.Fail("found", "ForLanguage(%s) reports %v, want %v", tag, found, known)
				}
				if rs == nil || rs.FormFunc == nil {
					t.Fail("no-rules", "ForLanguage(%s) returned no rule set", tag)
				}
				if got := catNames(rs.Categories); !slices.Equal(got, set.Cats) {
					t.Fail("categories", "Categories %v, want %v", got, set.Cats)
				}
				if !known {
					t.Count("languages without rules", 1)
				} else if oracle.CLDR[tag.String()] == nil {
					t.Count("variants resolved to a parent", 1)
				}
				for i := 0; i < 60; i++ {
					s := decimalText(t)
					cat := checkCLDRNumber(t, rs, set, s)
					if strings.Contains(s, "c") {
						t.Count("numbers with compact exponent", 1)
					}
					if strings.Contains(s, ".") {
						t.Count("numbers with fraction", 1)
					}
					t.Count("category "+cat, 1)
					t.Distinct(set.Langs[0], s)
				}
				t.Sample("%s: categories %v", tag, set.Cats)
			}},
			{Name: "integers", Quick: len(oracle.CLDRSets), Thor: len(oracle.CLDRSets), Run: func(t *fw.T) {
				// every integer of a dense range for every rule set
				set := oracle.CLDRSets[t.Idx]
				tag := randTag(t, set.Langs, 0)
				if s, _ := cldrFor(tag); s != set {
					return // deprecated code that x/text replaces by another language
				}
				t.Note("language %s", tag)
				rs, _ := cldrplural.ForLanguage(tag)
				max := 1500
				if t.Thor {
					max = 110000
				}
				for i := 0; i <= max; i++ {
					checkCLDRNumber(t, rs, set, strconv.Itoa(i))
				}
				for i := 0; i < 110; i++ {
					for _, f := range []string{".0", ".1", ".00", ".10", ".05", ".11", ".2", ".25", ".004"} {
						checkCLDRNumber(t, rs, set, strconv.Itoa(i)+f)
					}
				}
			}},
			{Name: "parsed-published", Quick: len(oracle.CLDRSets) * 4, Thor: len(oracle.CLDRSets) * 200, Run: func(t *fw.T) {
				set := oracle.CLDRSets[t.Idx%len(oracle.CLDRSets)]
				raw := map[cldrplural.Category]string{}
				for _, r := range set.Rules {
					raw[catByName[r.Cat]] = r.Text
					if t.Chance(2) {
						raw[catByName[r.Cat]] += ruleSamples
					}
				}
				if t.Chance(2) {
					raw[cldrplural.Other] = ruleSamples
				}
				t.Note("rules %v", raw)
				rs, err := cldrplural.ParseRules(raw)
				if err != nil {
					t.Fail("parse", "ParseRules of published rules: %v", err)
				}
				if got := catNames(rs.Categories); !slices.Equal(got, set.Cats) {
					t.Fail("parsed-categories", "Categories %v, want %v", got, set.Cats)
				}
				for i := 0; i < 120; i++ {
					checkCLDRNumber(t, rs, set, decimalText(t))
				}
			}},
			{Name: "syntax-tree", Quick: 4000, Thor: 200000, Run: func(t *fw.T) {
				cond := randCond(t)
				samples, values := randSamples(t)
				text := cond + samples
				if t.Chance(8) && samples != "" {
					cond, text = "", strings.TrimLeft(samples, " ")
				}
				text = respell(t, text)
				t.Note("rule %q", text)
				rule, err := cldrast.Parse(text)
				if err != nil {
					t.Fail("tree-parse", "Parse(%q): %v", text, err)
				}
				t.Eval(1)
				if !slices.Equal(rule.Samples, values) {
					t.Fail("tree-samples", "samples of %q: %q, want %q", text, rule.Samples, values)
				}
				if cond == "" {
					if rule.Root != nil {
						t.Fail("tree-root", "a rule without condition has the tree %v", rule.Root)
					}
					t.Count("rules with samples only", 1)
					return
				}
				var nodes []cldrast.Node
				if got := printTree(rule.Root, &nodes); got != cond {
					t.Fail("tree-text", "the tree of %q reads %q", cond, got)
				}
				if andAboveOr(rule.Root, false) {
					t.Fail("tree-precedence", "in the tree of %q an or is below an and", cond)
				}
				skip := map[cldrast.Node]bool{}
				for round := 0; round < 3; round++ {
					var got, want, insp []cldrast.Node
					cldrast.Walk(visitor{&got, skip}, rule.Root)
					wantVisits(rule.Root, skip, &want)
					t.Eval(2)
					if !slices.Equal(got, want) {
						t.Fail("walk", "Walk of %q without the parts below %d nodes visits %d nodes, want %d (or in another order)", cond, len(skip), len(got), len(want))
					}
					cldrast.Inspect(rule.Root, func(n cldrast.Node) bool {
						insp = append(insp, n)
						return n == nil || !skip[n]
					})
					if !slices.Equal(insp, want) {
						t.Fail("inspect", "Inspect of %q without the parts below %d nodes visits %d nodes, want %d (or in another order)", cond, len(skip), len(insp), len(want))
					}
					skip[fw.Pick(t, nodes)] = true
				}
				t.Count("trees walked", 1)
				t.Distinct(cond)
				t.Sample("%s: %d nodes, %d samples", text, len(nodes), len(values))
			}},
			{Name: "parsed-random", Quick: 4000, Thor: 200000, Run: func(t *fw.T) {
				// several categories whose conditions may overlap: the first one counts
				var rules []oracle.CLDRRule
				var conds []string
				raw := map[cldrplural.Category]string{}
				texts := map[string]string{}
				for _, k := range t.Perm(5)[:1+t.IntN(1+t.IntN(5))] {
					cond := randCond(t)
					cat := oracle.Categories[k]
					rules = append(rules, oracle.CLDRRule{Cat: cat, Text: cond})
					conds = append(conds, cond)
					text := cond
					if t.Chance(3) {
						text += ruleSamples
					}
					if t.Chance(4) {
						text = strings.ReplaceAll(text, " % ", fw.Pick(t, []string{" mod ", "  %  "}))
					}
					text = respell(t, text)
					raw[catByName[cat]] = text
					texts[cat] = text
				}
				if t.Chance(4) {
					raw[cldrplural.Other] = strings.TrimLeft(ruleSamples, " ")
				}
				set := oracle.NewCLDRSet(rules)
				t.Note("rules %v", raw)
				rs, err := cldrplural.ParseRules(raw)
				if err != nil {
					t.Fail("parse", "ParseRules of valid rules: %v", err)
				}
				var must *cldrplural.RuleSet
				if p, _ := fw.Try(func() { must = cldrplural.MustParseRules(raw) }); p != nil {
					t.Fail("must-panic", "MustParseRules of valid rules panics: %v", p)
				}
				if t.Chance(2) {
					rs = must
				}
				if got := catNames(rs.Categories); !slices.Equal(got, set.Cats) {
					t.Fail("parsed-categories", "Categories %v, want %v", got, set.Cats)
				}
				seen := map[string]bool{}
				for i := 0; i < 60; i++ {
					seen[checkCLDRNumber(t, rs, set, decimalText(t))] = true
				}
				if len(rules) > 1 {
					t.Count("random rules for several categories", 1)
				}
				if len(seen) > 1 {
					t.Count("random rules", 1)
					t.Distinct(strings.Join(conds, "|"))
				}
				t.Sample("%v", texts)
			}},
			{Name: "invalid", Quick: 3000, Thor: 100000, Run: func(t *fw.T) {
				// conditions that the grammar of UTS #35 does not allow
				toks := strings.Fields(strings.ReplaceAll(randCond(t), ",", " , "))
				at := func(f func(s string) bool) int {
					var pos []int
					for i, s := range toks {
						if f(s) {
							pos = append(pos, i)
						}
					}
					if len(pos) == 0 {
						return -1
					}
					return pos[t.IntN(len(pos))]
				}
				isOp := func(s string) bool { return s == "=" || s == "!=" }
				isOperand := func(s string) bool { return len(s) == 1 && s[0] >= 'a' && s[0] <= 'z' }
				isList := func(s string) bool { return s[0] >= '0' && s[0] <= '9' }
				isWord := func(s string) bool { return s == "and" || s == "or" }
				set := func(i int, s string) {
					if i >= 0 {
						toks[i] = s
					}
				}
				what := t.Idx % 14
				before := strings.Join(toks, " ")
				switch what {
				case 0:
					set(at(isOp), "")
				case 1:
					set(at(isOperand), "")
				case 2: // no values
					if i := at(isOp); i >= 0 {
						for i++; i < len(toks) && !isWord(toks[i]); i++ {
							toks[i] = ""
						}
					}
				case 3:
					set(at(isWord), "")
				case 4:
					if i := at(isWord); i >= 0 {
						toks[i] += " " + fw.Pick(t, []string{"and", "or"})
					}
				case 5:
					toks = append(toks, fw.Pick(t, []string{"and", "or"}))
				case 6:
					toks = append([]string{fw.Pick(t, []string{"and", "or", "=", "%", "not"})}, toks...)
				case 7:
					set(at(isOperand), fw.Pick(t, []string{"x", "k", "nn", "1", "n1", "p", "%"}))
				case 8:
					set(at(isOp), fw.Pick(t, []string{"==", "<", ">", "=!", "<>", "<=", "~", "!"}))
				case 9:
					if i := at(func(s string) bool { return s == "%" }); i >= 0 {
						toks[i+1] = fw.Pick(t, []string{"", "0", "-3", "x", "n", "1..3"})
					}
				case 10:
					set(at(isList), fw.Pick(t, []string{"-1", "x", "n", "1..x", "1..", "..4", "1e3", "99999999999999999999", "1...3", "'1'"}))
				case 11:
					if i := at(isOp); i >= 0 {
						toks[i] += " " + fw.Pick(t, []string{"=", "!=", "n", "%"})
					}
				case 12:
					toks = append(toks, fw.Pick(t, []string{"n", "= 3", "% 2", "(", ")", ";", "xor n = 1", "&& n = 1"}))
				case 13:
					toks = append(toks, fw.Pick(t, []string{"@int 1, 2", "@ 1", "@decimals 1.0", "@integer x", "@integer n = 1", "@integer 1~x", "@integer 1 and n = 1"}))
				}
				text := strings.Join(toks, " ")
				if text == before {
					return
				}
				t.Note("%d: rule %q", what, text)
				t.Eval(4)
				rule, err := cldrast.Parse(text)
				if err == nil || rule != nil {
					t.Fail("invalid-tree", "Parse accepts the invalid rule: %v, %v", rule, err)
				}
				raw := map[cldrplural.Category]string{fw.Pick(t, []cldrplural.Category{cldrplural.Zero, cldrplural.One, cldrplural.Many, cldrplural.Other}): text}
				if t.Chance(2) {
					raw[cldrplural.Two] = "n = 2"
				}
				rs, err := cldrplural.ParseRules(raw)
				if err == nil || rs != nil {
					t.Fail("invalid-accepted", "ParseRules accepts an invalid rule: %v, %v", rs, err)
				}
				if p, _ := fw.Try(func() { rs = cldrplural.MustParseRules(raw) }); p == nil {
					t.Fail("invalid-must", "MustParseRules accepts an invalid rule: %v", rs)
				}
				if p, _ := fw.Try(func() { rule = cldrast.MustParse(text) }); p == nil {
					t.Fail("invalid-must-tree", "MustParse accepts an invalid rule: %v", rule)
				}
				t.Count("invalid rules refused", 1)
				t.Distinct("invalid", text)
				t.Sample("%s", text)
			}},
		},
	})
}
