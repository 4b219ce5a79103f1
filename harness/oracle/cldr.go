package oracle

import (
	_ "embed"
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

//go:embed cldr.txt
var cldrText string

//go:embed gettext.txt
var gettextText string

// Categories in CLDR order.
var Categories = []string{"Zero", "One", "Two", "Few", "Many", "Other"}

// CLDRRule is one rule of a language.
type CLDRRule struct {
	Cat  string
	Text string
	cond [][]rel // or of and
}

// CLDRSet is the rule set of a language.
type CLDRSet struct {
	Langs []string
	Cats  []string // listed categories
	Rules []CLDRRule
}

// Num holds the CLDR operands of a decimal text exactly.
type Num struct {
	IntDigits, Frac string // absolute value; exponent applied
	C               int
}

// ParseNum parses [+-]digits[.digits][cN].
func ParseNum(s string) (Num, bool) {
	var n Num
	s = strings.TrimLeft(s, "+-")
	if i := strings.IndexAny(s, "c"); i >= 0 {
		c, err := strconv.Atoi(s[i+1:])
		if err != nil || c < 0 {
			return n, false
		}
		n.C = c
		s = s[:i]
	}
	n.IntDigits, n.Frac, _ = strings.Cut(s, ".")
	for k := 0; k < n.C; k++ {
		if n.Frac != "" {
			n.IntDigits += n.Frac[:1]
			n.Frac = n.Frac[1:]
		} else {
			n.IntDigits += "0"
		}
	}
	n.IntDigits = strings.TrimLeft(n.IntDigits, "0")
	if n.IntDigits == "" {
		n.IntDigits = "0"
	}
	return n, true
}

func bigOf(s string) *big.Rat {
	if s == "" {
		s = "0"
	}
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		panic("number " + s)
	}
	return r
}

// Operand returns the value of operand o.
func (n Num) Operand(o byte) *big.Rat {
	w := strings.TrimRight(n.Frac, "0")
	switch o {
	case 'n':
		return bigOf(n.IntDigits + "." + n.Frac + "0")
	case 'i':
		return bigOf(n.IntDigits)
	case 'v':
		return bigOf(strconv.Itoa(len(n.Frac)))
	case 'w':
		return bigOf(strconv.Itoa(len(w)))
	case 'f':
		return bigOf(n.Frac)
	case 't':
		return bigOf(w)
	case 'c', 'e':
		return bigOf(strconv.Itoa(n.C))
	}
	panic("operand")
}

type rel struct {
	op     byte
	mod    int64
	not    bool
	ranges [][2]int64
}

func (r rel) eval(n Num) bool {
	x := n.Operand(r.op)
	if r.mod > 0 {
		// x mod m for a rational x
		m := big.NewInt(r.mod)
		den := x.Denom()
		num := new(big.Int).Mod(x.Num(), new(big.Int).Mul(m, den))
		x = new(big.Rat).SetFrac(num, den)
	}
	in := false
	for _, rg := range r.ranges {
		if rg[0] == rg[1] {
			in = in || x.Cmp(new(big.Rat).SetInt64(rg[0])) == 0
		} else {
			in = in || (x.IsInt() && x.Cmp(new(big.Rat).SetInt64(rg[0])) >= 0 && x.Cmp(new(big.Rat).SetInt64(rg[1])) <= 0)
		}
	}
	return in != r.not
}

// ParseCLDR parses a condition (without samples).
func ParseCLDR(text string) [][]rel {
	var out [][]rel
	for _, o := range strings.Split(text, " or ") {
		var ands []rel
		for _, a := range strings.Split(o, " and ") {
			f := strings.Fields(a)
			r := rel{op: f[0][0]}
			k := 1
			if f[k] == "%" {
				r.mod, _ = strconv.ParseInt(f[2], 10, 64)
				k = 3
			}
			r.not = f[k] == "!="
			if f[k] != "=" && f[k] != "!=" {
				panic("rule " + text)
			}
			for _, v := range strings.Split(strings.Join(f[k+1:], ""), ",") {
				lo, hi, ok := strings.Cut(v, "..")
				if !ok {
					hi = lo
				}
				a, e1 := strconv.ParseInt(lo, 10, 64)
				b, e2 := strconv.ParseInt(hi, 10, 64)
				if e1 != nil || e2 != nil {
					panic("rule " + text)
				}
				r.ranges = append(r.ranges, [2]int64{a, b})
			}
			ands = append(ands, r)
		}
		out = append(out, ands)
	}
	return out
}

// NewCLDRSet builds a rule set from (category, text) pairs.
func NewCLDRSet(rules []CLDRRule) *CLDRSet {
	s := &CLDRSet{}
	for _, c := range Categories {
		for _, r := range rules {
			if r.Cat == c {
				r.cond = ParseCLDR(r.Text)
				s.Rules = append(s.Rules, r)
				s.Cats = append(s.Cats, c)
			}
		}
	}
	s.Cats = append(s.Cats, "Other")
	return s
}

// Category of a number.
func (s *CLDRSet) Category(n Num) string {
	for _, r := range s.Rules {
		for _, ands := range r.cond {
			all := true
			for _, a := range ands {
				all = all && a.eval(n)
			}
			if all {
				return r.Cat
			}
		}
	}
	return "Other"
}

// Index of a category in the language's list, -1 if absent.
func (s *CLDRSet) Index(cat string) int {
	for i, c := range s.Cats {
		if c == cat {
			return i
		}
	}
	return -1
}

// CLDR maps language names to rule sets.
var CLDR = map[string]*CLDRSet{}

// CLDRSets lists all sets.
var CLDRSets []*CLDRSet

// Gettext maps language names to formulas.
type GettextRule struct {
	Langs []string
	Text  string
	N     int
	E     *CExpr
}

var Gettext = map[string]*GettextRule{}
var GettextRules []*GettextRule

func init() {
	var langs []string
	var rules []CLDRRule
	flush := func() {
		if langs == nil {
			return
		}
		s := NewCLDRSet(rules)
		s.Langs = langs
		CLDRSets = append(CLDRSets, s)
		for _, l := range langs {
			if CLDR[l] != nil {
				panic("duplicate " + l)
			}
			CLDR[l] = s
		}
		langs, rules = nil, nil
	}
	for _, l := range strings.Split(cldrText, "\n") {
		switch {
		case strings.HasPrefix(l, "#") || strings.TrimSpace(l) == "":
		case strings.HasPrefix(l, " "):
			c, t, ok := strings.Cut(strings.TrimSpace(l), ":")
			if !ok {
				panic(l)
			}
			rules = append(rules, CLDRRule{Cat: strings.TrimSpace(c), Text: strings.TrimSpace(t)})
		default:
			flush()
			langs = strings.Fields(l)
		}
	}
	flush()
	for _, l := range strings.Split(gettextText, "\n") {
		if strings.TrimSpace(l) == "" || strings.HasPrefix(l, "#") {
			continue
		}
		a, t, ok := strings.Cut(l, "|")
		if !ok {
			panic(l)
		}
		r := &GettextRule{Langs: strings.Fields(a), Text: strings.TrimSpace(t)}
		r.N, r.E = MustPlural(r.Text)
		GettextRules = append(GettextRules, r)
		for _, x := range r.Langs {
			if Gettext[x] != nil {
				panic(fmt.Sprint("duplicate ", x))
			}
			Gettext[x] = r
		}
	}
}
