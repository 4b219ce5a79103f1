package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/vorlif/spreak/catalog/poplural"
	poast "github.com/vorlif/spreak/catalog/poplural/ast"

	"verifharness/fw"
	"verifharness/oracle"
)

// Widely used Plural-Forms headers (gettext manual and translation projects).
var commonPluralForms = []string{
	"nplurals=1; plural=0;",
	"nplurals=2; plural=n != 1;",
	"nplurals=2; plural=(n != 1);",
	"nplurals=2; plural=(n > 1);",
	"nplurals=2; plural=n>1;",
	"nplurals=2; plural=n == 1 ? 0 : 1;",
	"nplurals=2; plural=(n==0 || n==1);",
	"nplurals=2; plural=(n%10!=1 || n%100==11);",
	"nplurals=2; plural=(n % 10 == 1 && n % 100 != 11) ? 0 : 1;",
	"nplurals=2; plural=n==1 || n%10==1 ? 0 : 1;",
	"nplurals=3; plural=(n==0 ? 0 : n==1 ? 1 : 2);",
	"nplurals=3; plural=(n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2);",
	"nplurals=3; plural=n==1 ? 0 : n==2 ? 1 : 2;",
	"nplurals=3; plural=n==1 ? 0 : (n==0 || (n%100 > 0 && n%100 < 20)) ? 1 : 2;",
	"nplurals=3; plural=(n%10==1 && n%100!=11 ? 0 : n%10>=2 && (n%100<10 || n%100>=20) ? 1 : 2);",
	"nplurals=3; plural=(n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2);",
	"nplurals=3; plural=(n==1) ? 0 : (n>=2 && n<=4) ? 1 : 2;",
	"nplurals=3; plural=(n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2);",
	"nplurals=4; plural=(n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 || n%100==4 ? 2 : 3);",
	"nplurals=4; plural=(n==1 || n==11) ? 0 : (n==2 || n==12) ? 1 : (n > 2 && n < 20) ? 2 : 3;",
	"nplurals=4; plural=(n==1) ? 0 : (n==2) ? 1 : (n != 8 && n != 11) ? 2 : 3;",
	"nplurals=4; plural=(n==1 ? 0 : n==0 || ( n%100>1 && n%100<11) ? 1 : (n%100>10 && n%100<20 ) ? 2 : 3);",
	"nplurals=5; plural=n==1 ? 0 : n==2 ? 1 : (n>2 && n<7) ? 2 :(n>6 && n<11) ? 3 : 4;",
	"nplurals=6; plural=(n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5);",
	"nplurals=6; plural=(n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n==3 ? 3 : n==6 ? 4 : 5);",
	"nplurals=3; plural=n == 0 ? 0 : (n == 0 || n == 1) && n != 0 ? 1 : 2;",
	"nplurals=4; plural=n % 100 == 1 ? 0 : n % 100 == 2 ? 1 : n % 100 >= 3 && n % 100 <= 4 ? 2 : 3;",
	"nplurals=2; plural=n % 10 == 1 && n % 100 != 11;",
	"nplurals=2; plural=((n == 1 || (n == 2 || n == 3)) || n % 10 != 4 && n % 10 != 6 && n % 10 != 9);",
	"nplurals=5; plural=n % 10 == 1 && n % 100 != 11 && n % 100 != 71 && n % 100 != 91 ? 0 : n % 10 == 2 && n % 100 != 12 && n % 100 != 72 && n % 100 != 92 ? 1 : (n % 10 >= 3 && n % 10 <= 4 || n % 10 == 9) && (n % 100 < 10 || n % 100 > 19) && (n % 100 < 70 || n % 100 > 79) && (n % 100 < 90 || n % 100 > 99) ? 2 : n != 0 && n % 1000000 == 0 ? 3 : 4;",
	"nplurals=2; plural=(n <= 1 || n >= 11 && n <= 99);",
}

func allPluralForms() []string {
	out := append([]string{}, commonPluralForms...)
	for _, r := range oracle.GettextRules {
		out = append(out, r.Text)
	}
	return out
}

var pluralConsts = []int64{0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 14, 19, 20, 22, 80, 99, 100, 1000, 1000000, 4294967296, 9007199254740993}

func randCExpr(t *fw.T, depth int) *oracle.CExpr {
	if depth <= 0 || t.IntN(8) == 0 {
		if t.IntN(2) == 0 {
			return &oracle.CExpr{Op: "n"}
		}
		return &oracle.CExpr{Op: "num", Val: fw.Pick(t, pluralConsts)}
	}
	switch k := t.IntN(12); {
	case k < 2:
		return &oracle.CExpr{Op: "?:", A: []*oracle.CExpr{randCExpr(t, depth-1), randCExpr(t, depth-1), randCExpr(t, depth-1)}}
	case k < 4:
		return &oracle.CExpr{Op: "&&", A: []*oracle.CExpr{randCExpr(t, depth-1), randCExpr(t, depth-1)}}
	case k < 6:
		return &oracle.CExpr{Op: "||", A: []*oracle.CExpr{randCExpr(t, depth-1), randCExpr(t, depth-1)}}
	case k < 8:
		return &oracle.CExpr{Op: "%", A: []*oracle.CExpr{randCExpr(t, depth-1), {Op: "num", Val: fw.Pick(t, pluralConsts[1:])}}}
	default:
		return &oracle.CExpr{Op: fw.Pick(t, []string{"==", "!=", "<", "<=", ">", ">=", "==", "!="}), A: []*oracle.CExpr{randCExpr(t, depth-1), randCExpr(t, depth-1)}}
	}
}

func cloneC(e *oracle.CExpr) *oracle.CExpr {
	c := &oracle.CExpr{Op: e.Op, Val: e.Val}
	for _, a := range e.A {
		c.A = append(c.A, cloneC(a))
	}
	return c
}

func nodesC(e *oracle.CExpr) []*oracle.CExpr {
	out := []*oracle.CExpr{e}
	for _, a := range e.A {
		out = append(out, nodesC(a)...)
	}
	return out
}

// mutateC changes one node so that the formula stays close to a well known one.
func mutateC(t *fw.T, e *oracle.CExpr) {
	ns := nodesC(e)
	x := fw.Pick(t, ns)
	switch x.Op {
	case "num":
		x.Val = max(0, x.Val+int64(t.IntN(3))-1)
		if t.Chance(3) {
			*x = oracle.CExpr{Op: "n"}
		}
	case "n":
		*x = oracle.CExpr{Op: "%", A: []*oracle.CExpr{{Op: "n"}, {Op: "num", Val: fw.Pick(t, []int64{10, 100, 1000})}}}
	case "?:":
		k := t.IntN(3)
		x.A[k], x.A[(k+1)%3] = x.A[(k+1)%3], x.A[k]
	default:
		switch t.IntN(3) {
		case 0:
			x.Op = fw.Pick(t, []string{"==", "!=", "<", "<=", ">", ">=", "&&", "||"})
		case 1:
			x.A[0], x.A[1] = x.A[1], x.A[0]
		default: // rotate: (a op b) op2 c -> a op (b op2 c)
			if len(x.A[0].A) == 2 && x.A[0].Op != "?:" {
				l := x.A[0]
				a, b, c := l.A[0], l.A[1], x.A[1]
				*x = oracle.CExpr{Op: l.Op, A: []*oracle.CExpr{a, {Op: x.Op, A: []*oracle.CExpr{b, c}}}}
			} else if len(x.A[1].A) == 2 && x.A[1].Op != "?:" {
				r := x.A[1]
				a, b, c := x.A[0], r.A[0], r.A[1]
				*x = oracle.CExpr{Op: r.Op, A: []*oracle.CExpr{{Op: x.Op, A: []*oracle.CExpr{a, b}}, c}}
			}
		}
	}
}

func pluralNs(t *fw.T) []int64 {
	ns := make([]int64, 0, 64)
	for i := int64(0); i <= 25; i++ {
		ns = append(ns, i)
	}
	for i := 0; i < 20; i++ {
		ns = append(ns, t.Int64N(210))
	}
	for i := 0; i < 6; i++ {
		p := int64(math.Pow10(t.IntN(19)))
		ns = append(ns, p*(1+t.Int64N(9))+t.Int64N(23)-11)
	}
	ns = append(ns, 1000000, 2000000, 100000, 1<<31-1, 1<<32+1, 1<<53-1, 1<<53+1, math.MaxInt64, math.MaxInt64-int64(t.IntN(200)))
	out := ns[:0]
	for _, n := range ns {
		if n >= 0 {
			out = append(out, n)
		}
	}
	return out
}

// spaces supplies separators; tokens which would merge never stand next to each other in an expression.
func spaces(t *fw.T, mode int) func() string {
	return func() string {
		switch mode {
		case 0:
			return ""
		case 1:
			return " "
		}
		return fw.Pick(t, []string{"", " ", "  ", "\t", " \t", "\n", "\r\n"})
	}
}

// evalTree evaluates a syntax tree as C does; false: division by zero.
func evalTree(t *fw.T, node poast.Node, n int64) (int64, bool) {
	b := func(v bool) (int64, bool) {
		if v {
			return 1, true
		}
		return 0, true
	}
	switch e := node.(type) {
	case *poast.ValueExpr:
		return e.Value, true
	case *poast.OperandExpr:
		return n, true
	case *poast.QuestionMarkExpr:
		c, ok := evalTree(t, e.Cond, n)
		if !ok {
			return 0, false
		}
		if c != 0 {
			return evalTree(t, e.T, n)
		}
		return evalTree(t, e.F, n)
	case *poast.BinaryExpr:
		x, ok := evalTree(t, e.X, n)
		if !ok {
			return 0, false
		}
		if e.Op == poast.LogicalAnd && x == 0 {
			return 0, true
		}
		if e.Op == poast.LogicalOr && x != 0 {
			return 1, true
		}
		y, ok := evalTree(t, e.Y, n)
		if !ok {
			return 0, false
		}
		switch e.Op {
		case poast.LogicalAnd, poast.LogicalOr:
			return b(y != 0)
		case poast.Equal:
			return b(x == y)
		case poast.NotEqual:
			return b(x != y)
		case poast.Less:
			return b(x < y)
		case poast.LessOrEqual:
			return b(x <= y)
		case poast.Greater:
			return b(x > y)
		case poast.GreaterOrEqual:
			return b(x >= y)
		case poast.Reminder:
			if y == 0 {
				return 0, false
			}
			return x % y, true
		}
		t.Fail("tree-operator", "unknown operator %q in the syntax tree", e.Op)
	}
	t.Fail("tree-node", "unknown node %T in the syntax tree", node)
	return 0, false
}

// checkTree compares the syntax tree of a rule and the text written from it with the rule.
func checkTree(t *fw.T, raw string, nplurals int, e *oracle.CExpr) {
	forms, err := poast.Parse(raw)
	if err != nil {
		t.Fail("tree-rejected", "ast.Parse of a valid expression: %v", err)
	}
	if t.Chance(2) {
		if p, _ := fw.Try(func() { forms = poast.MustParse(raw) }); p != nil {
			t.Fail("tree-must-panic", "ast.MustParse of a valid expression panics: %v", p)
		}
	}
	if forms.NPlurals != nplurals {
		t.Fail("tree-nplurals", "NPlurals %d of the tree, want %d", forms.NPlurals, nplurals)
	}
	text := poast.CompileToString(forms)
	np, written, err := oracle.ParsePlural(text)
	if err != nil {
		t.Fail("written-invalid", "the tree is written as %q, which is no valid rule: %v", text, err)
	}
	if np != nplurals {
		t.Fail("written-nplurals", "the tree is written as %q with %d forms, want %d", text, np, nplurals)
	}
	rule, err := poplural.Parse(text)
	if err != nil {
		t.Fail("written-rejected", "the tree is written as %q, which Parse rejects: %v", text, err)
	}
	for _, n := range pluralNs(t) {
		want, ok := e.Eval(n)
		got, okGot := evalTree(t, forms.Root, n)
		t.Eval(2)
		if ok != okGot || got != want && ok {
			t.Fail("tree-value", "the tree gives %d (%v) for %d, C value is %d (%v)", got, okGot, n, want, ok)
		}
		got, okGot = written.Eval(n)
		if ok != okGot || got != want && ok {
			t.Fail("written-value", "the tree is written as %q, which gives %d (%v) for %d, C value of the rule is %d (%v)", text, got, okGot, n, want, ok)
		}
		if ok {
			if got := rule.FormFunc(n); int64(got) != want {
				t.Fail("written-formfunc", "the tree is written as %q, FormFunc(%d) = %d, C value of the rule is %d", text, n, got, want)
			}
		}
	}
	t.Count("trees written", 1)
}

func checkRule(t *fw.T, raw string, nplurals int, e *oracle.CExpr) {
	t.Note("rule %q", raw)
	rule, err := poplural.Parse(raw)
	if err != nil {
		t.Fail("valid-rejected", "Parse of a valid expression: %v", err)
	}
	if rule.NPlurals != nplurals {
		t.Fail("nplurals", "NPlurals %d, want %d", rule.NPlurals, nplurals)
	}
	var must *poplural.Rule
	if p, _ := fw.Try(func() { must = poplural.MustParse(raw) }); p != nil {
		t.Fail("must-panic", "MustParse of a valid expression panics: %v", p)
	}
	distinct := map[int64]bool{}
	for _, n := range pluralNs(t) {
		want, ok := e.Eval(n)
		if !ok {
			_ = rule.FormFunc(n)
			continue
		}
		t.Eval(1)
		distinct[want] = true
		if got := rule.FormFunc(n); int64(got) != want {
			t.Fail("formfunc", "FormFunc(%d) = %d, C value is %d", n, got, want)
		}
		if got := must.FormFunc(n); must.NPlurals != nplurals || int64(got) != want {
			t.Fail("must-formfunc", "MustParse: NPlurals %d, FormFunc(%d) = %d; NPlurals is %d, C value is %d", must.NPlurals, n, got, nplurals, want)
		}
		for _, v := range []int64{n, -n} {
			got, err := rule.Evaluate(v)
			if err != nil || int64(got) != want {
				t.Fail("evaluate", "Evaluate(%d) = %d, %v; C value is %d", v, got, err, want)
			}
		}
	}
	if t.Chance(3) {
		checkTree(t, raw, nplurals, e)
	}
	if len(distinct) > 1 {
		t.Distinct(raw)
		t.Count("non-constant rules", 1)
	}
	t.Sample("%s", raw)
}

func init() {
	register(&fw.Check{
		ID:          "C16",
		Rule:        "random expression trees written with random whitespace and parentheses, well known rules and close mutations of them; non-trivial: the rule takes at least two values on the probed numbers",
		Assumptions: []string{"expressions dividing by zero at the probed number are only required not to panic", "constants below 10^18, numbers up to 2^63-1"},
		Need:        []string{"non-constant rules", "invalid texts rejected", "trees written"},
		MinNonTriv:  1000,
		Gens: []fw.Gen{
			{Name: "random-tree", Quick: 12000, Thor: 600000, Run: func(t *fw.T) {
				e := randCExpr(t, 1+t.IntN(5))
				extra := func() bool { return false }
				if t.Chance(2) {
					k := 3 + t.IntN(8)
					extra = func() bool { return t.IntN(k) == 0 }
				}
				np := 1 + t.IntN(6)
				sp := spaces(t, t.IntN(3))
				raw := fmt.Sprintf("nplurals=%s%d%s;%splural=%s", sp(), np, sp(), sp(), sp()) + e.Text(extra, sp) + sp()
				if !t.Chance(8) {
					raw += ";"
				}
				checkRule(t, raw, np, e)
			}},
			{Name: "known", Quick: 3000, Thor: 60000, Run: func(t *fw.T) {
				all := allPluralForms()
				src := all[t.Idx%len(all)]
				np, e := oracle.MustPlural(src)
				if t.Idx < len(all) {
					checkRule(t, src, np, e)
					return
				}
				sp := spaces(t, t.IntN(3))
				k := 2 + t.IntN(20)
				extra := func() bool { return t.IntN(k) == 0 }
				raw := fmt.Sprintf("nplurals=%d;%splural=", np, sp()) + e.Text(extra, sp) + ";"
				checkRule(t, raw, np, e)
			}},
			{Name: "near-known", Quick: 12000, Thor: 600000, Run: func(t *fw.T) {
				np, e := oracle.MustPlural(fw.Pick(t, allPluralForms()))
				e = cloneC(e)
				for i := t.IntN(3); i >= 0; i-- {
					mutateC(t, e)
				}
				if t.Chance(6) {
					np = 1 + t.IntN(6)
				}
				k := 3 + t.IntN(30)
				extra := func() bool { return t.IntN(k) == 0 }
				raw := fmt.Sprintf("nplurals=%d; plural=", np) + e.Text(extra, spaces(t, t.IntN(3))) + ";"
				checkRule(t, raw, np, e)
			}},
			{Name: "token-mutation", Quick: 20000, Thor: 800000, Run: func(t *fw.T) {
				raw := fw.Pick(t, allPluralForms())
				toks := []string{"n", "0", "1", "10", "(", ")", "?", ":", "&&", "||", "==", "!=", "<", ">", "<=", ">=", "%", ";", "=", "&", "|", "!", "+", "-", "*", "/", "~", "a", "nn", "n_", "plural", "nplurals", " ", "\x00", "é", "0x1", "1.5", "#"}
				for i := t.IntN(3); i >= 0; i-- {
					p := t.IntN(len(raw) + 1)
					switch t.IntN(3) {
					case 0:
						raw = raw[:p] + fw.Pick(t, toks) + raw[p:]
					case 1:
						q := min(len(raw), p+1+t.IntN(3))
						raw = raw[:p] + raw[q:]
					default:
						q := min(len(raw), p+1)
						raw = raw[:p] + fw.Pick(t, toks) + raw[q:]
					}
				}
				np, e, err := oracle.ParsePlural(raw)
				if err == nil {
					checkRule(t, raw, np, e)
					return
				}
				t.Note("rule %q", raw)
				rule, errL := poplural.Parse(raw)
				if errL == nil {
					t.Fail("invalid-accepted", "text is no valid rule (%v) but was accepted; nplurals=%d FormFunc(0..3)=%d %d %d %d", err, rule.NPlurals, rule.FormFunc(0), rule.FormFunc(1), rule.FormFunc(2), rule.FormFunc(3))
				}
				if rule != nil {
					t.Fail("rule-with-error", "a rule was returned together with the error %v", errL)
				}
				if forms, err := poast.Parse(raw); err == nil || forms != nil {
					t.Fail("invalid-tree", "text is no valid rule but ast.Parse returns %v, %v", forms, err)
				}
				if p, _ := fw.Try(func() { _ = poast.MustParse(raw) }); p == nil {
					t.Fail("invalid-must-tree", "ast.MustParse accepts an invalid text")
				}
				if p, _ := fw.Try(func() { rule = poplural.MustParse(raw) }); p == nil {
					t.Fail("must-accepted", "MustParse returns a rule (nil: %v) although Parse fails: %v", rule == nil, errL)
				}
				t.Count("invalid texts rejected", 1)
				t.Distinct("invalid", raw)
			}},
			{Name: "whitespace-invariance", Quick: 1500, Thor: 30000, Run: func(t *fw.T) {
				// rules too long for any table entry, chains in all associativities
				var parts []string
				for i := 2 + t.IntN(30); i > 0; i-- {
					parts = append(parts, fmt.Sprintf("n%%%d%s%d", 2+t.IntN(120), fw.Pick(t, []string{"==", "!=", "<", ">="}), t.IntN(100)))
				}
				body := parts[0]
				for _, p := range parts[1:] {
					body += fw.Pick(t, []string{"&&", "||"}) + p
				}
				if t.Chance(2) {
					body = strings.Replace(body, "&&", "?2:", 1)
				}
				raw := "nplurals=3; plural=" + body + ";"
				np, e, err := oracle.ParsePlural(raw)
				if err != nil {
					panic(err)
				}
				checkRule(t, raw, np, e)
			}},
		},
	})
}
