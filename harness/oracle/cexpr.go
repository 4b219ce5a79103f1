// Package oracle holds independent reference implementations.
package oracle

import (
	"fmt"
	"strings"
)

// CExpr is a C expression over n (unsigned long semantics; there is no operator
// which could leave the range of the operands).
type CExpr struct {
	Op   string // "n", "num", "?:" or a binary operator
	Val  int64
	A    []*CExpr
	text string
}

// Eval returns the value, ok is false if there is a division by zero in an evaluated position.
func (e *CExpr) Eval(n int64) (v int64, ok bool) {
	b := func(x bool) int64 {
		if x {
			return 1
		}
		return 0
	}
	switch e.Op {
	case "n":
		return n, true
	case "num":
		return e.Val, true
	case "?:":
		c, ok := e.A[0].Eval(n)
		if !ok {
			return 0, false
		}
		if c != 0 {
			return e.A[1].Eval(n)
		}
		return e.A[2].Eval(n)
	}
	x, ok := e.A[0].Eval(n)
	if !ok {
		return 0, false
	}
	switch {
	case e.Op == "&&" && x == 0:
		return 0, true
	case e.Op == "||" && x != 0:
		return 1, true
	}
	y, ok := e.A[1].Eval(n)
	if !ok {
		return 0, false
	}
	switch e.Op {
	case "&&", "||":
		return b(y != 0), true
	case "==":
		return b(x == y), true
	case "!=":
		return b(x != y), true
	case "<":
		return b(x < y), true
	case "<=":
		return b(x <= y), true
	case ">":
		return b(x > y), true
	case ">=":
		return b(x >= y), true
	case "%":
		if y == 0 {
			return 0, false
		}
		return x % y, true
	}
	panic("op " + e.Op)
}

// Prec is the C precedence of the operator.
func Prec(op string) int {
	switch op {
	case "?:":
		return 0
	case "||":
		return 1
	case "&&":
		return 2
	case "==", "!=":
		return 3
	case "<", "<=", ">", ">=":
		return 4
	case "%":
		return 5
	}
	return 6
}

// Text writes the expression with the parentheses C requires, and additional
// ones whenever extra() is true; sp supplies whitespace between tokens.
func (e *CExpr) Text(extra func() bool, sp func() string) string {
	return e.write(0, extra, sp)
}

func (e *CExpr) write(min int, extra func() bool, sp func() string) string {
	var s string
	p := Prec(e.Op)
	switch e.Op {
	case "n":
		s = "n"
	case "num":
		s = fmt.Sprint(e.Val)
	case "?:":
		// cond must bind tighter, the middle may be anything, the last is an expression again
		s = e.A[0].write(1, extra, sp) + sp() + "?" + sp() + e.A[1].write(0, extra, sp) + sp() + ":" + sp() + e.A[2].write(0, extra, sp)
	default:
		s = e.A[0].write(p, extra, sp) + sp() + e.Op + sp() + e.A[1].write(p+1, extra, sp)
	}
	for p < min || extra() {
		s = "(" + sp() + s + sp() + ")"
		if p < min {
			p = 6
			min = 0
		}
	}
	return s
}

// ParsePlural parses "nplurals=N; plural=EXPR[;]" strictly.
func ParsePlural(s string) (int, *CExpr, error) {
	p := &cparser{}
	if err := p.lex(s); err != nil {
		return 0, nil, err
	}
	if !p.take("nplurals") || !p.take("=") {
		return 0, nil, fmt.Errorf("nplurals=")
	}
	n, ok := p.num()
	if !ok || !p.take(";") || !p.take("plural") || !p.take("=") {
		return 0, nil, fmt.Errorf("plural=")
	}
	e, err := p.expr()
	if err != nil {
		return 0, nil, err
	}
	p.take(";")
	if p.i != len(p.t) {
		return 0, nil, fmt.Errorf("rest %q", p.t[p.i:])
	}
	return int(n), e, nil
}

// MustPlural is ParsePlural for known good texts.
func MustPlural(s string) (int, *CExpr) {
	n, e, err := ParsePlural(s)
	if err != nil {
		panic(s + ": " + err.Error())
	}
	return n, e
}

type cparser struct {
	t []string
	i int
}

func (p *cparser) lex(s string) error {
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case strings.IndexByte(" \t\n\r\v\f", c) >= 0:
			i++
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			p.t = append(p.t, s[i:j])
			i = j
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_':
			j := i
			for j < len(s) && (s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] == '_') {
				j++
			}
			p.t = append(p.t, s[i:j])
			i = j
		default:
			if i+1 < len(s) {
				switch s[i : i+2] {
				case "==", "!=", "<=", ">=", "&&", "||":
					p.t = append(p.t, s[i:i+2])
					i += 2
					continue
				}
			}
			if strings.IndexByte("<>?:()%;=", c) < 0 {
				return fmt.Errorf("char %q", c)
			}
			p.t = append(p.t, s[i:i+1])
			i++
		}
	}
	return nil
}

func (p *cparser) peek() string {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return ""
}

func (p *cparser) take(s string) bool {
	if p.peek() == s {
		p.i++
		return true
	}
	return false
}

func (p *cparser) num() (int64, bool) {
	t := p.peek()
	if t == "" || t[0] < '0' || t[0] > '9' || len(t) > 18 {
		return 0, false
	}
	var v int64
	for _, c := range t {
		v = v*10 + int64(c-'0')
	}
	p.i++
	return v, true
}

func (p *cparser) expr() (*CExpr, error) {
	c, err := p.bin(1)
	if err != nil {
		return nil, err
	}
	if !p.take("?") {
		return c, nil
	}
	a, err := p.expr()
	if err != nil {
		return nil, err
	}
	if !p.take(":") {
		return nil, fmt.Errorf("no ':'")
	}
	b, err := p.expr()
	if err != nil {
		return nil, err
	}
	return &CExpr{Op: "?:", A: []*CExpr{c, a, b}}, nil
}

func (p *cparser) bin(lvl int) (*CExpr, error) {
	if lvl == 6 {
		if p.take("n") {
			return &CExpr{Op: "n"}, nil
		}
		if p.take("(") {
			e, err := p.expr()
			if err != nil {
				return nil, err
			}
			if !p.take(")") {
				return nil, fmt.Errorf("no ')'")
			}
			return e, nil
		}
		if v, ok := p.num(); ok {
			return &CExpr{Op: "num", Val: v}, nil
		}
		return nil, fmt.Errorf("unexpected %q", p.peek())
	}
	l, err := p.bin(lvl + 1)
	if err != nil {
		return nil, err
	}
	for {
		op := p.peek()
		if p := Prec(op); p != lvl || op == "n" {
			return l, nil
		}
		p.i++
		r, err := p.bin(lvl + 1)
		if err != nil {
			return nil, err
		}
		l = &CExpr{Op: op, A: []*CExpr{l, r}}
	}
}
