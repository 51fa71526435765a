package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// Printing of expressions. An expression is a tree as in spec/Expr.tla:
// ["and", x, y], ["eq", term, term], ... The same tree can be written in many ways, which all
// mean the same; rng chooses one.

type printer struct {
	rng  *rand.Rand
	in   *Interner
	nums map[string]numDef
	rxs  map[string]string
	mode int // 0 random, 1 fewest brackets, 2 all brackets
	// inner: inside an operand which is handed to govaluate as a whole. govaluate takes everything
	// behind a method call as its arguments, so that the call needs brackets there.
	inner bool
	open  bool // a sum needs no brackets
}

type numDef struct {
	f    float64
	lits []string
}

const (
	precTern = iota
	precOr
	precAnd
	precAtom
)

func (p *printer) chance(x float64) bool { return p.mode == 0 && p.rng.Float64() < x }

func (p *printer) sp() string {
	if p.mode != 0 {
		return " "
	}
	switch p.rng.Intn(12) {
	case 0, 1:
		return ""
	case 2:
		return "  "
	case 3:
		return "\t"
	case 4:
		return " \n "
	}
	return " "
}

// need is a space that may become any other white space
func (p *printer) need() string {
	if s := p.sp(); s != "" {
		return s
	}
	return " "
}

func (p *printer) quote(text string) string {
	q := "'"
	if p.mode == 0 && p.rng.Intn(2) == 0 {
		q = `"`
	}
	text = strings.NewReplacer(`\`, `\\`, `'`, `\'`, `"`, `\"`).Replace(text)
	return q + text + q
}

func (p *printer) attr(key, col string) string {
	if p.chance(0.3) {
		return key + "_" + col
	}
	return key + "." + col
}

func (p *printer) term(n []interface{}) string {
	t := p.term1(n)
	if p.chance(0.05) {
		return "(" + t + ")"
	}
	return t
}

func (p *printer) term1(n []interface{}) string {
	switch n[0].(string) {
	case "p", "r":
		return p.attr(n[1].(string), n[2].(string))
	case "lit":
		v := obj(n[1])
		switch str(v, "t") {
		case "s":
			return p.quote(p.in.Text(str(v, "v")))
		case "n":
			lits := p.nums[str(v, "v")].lits
			if l := lits[p.rng.Intn(len(lits))]; !p.inner || !strings.ContainsAny(l, `'"`) {
				return l
			}
			return lits[0] // no date before ? or :
		case "b":
			if str(v, "v") == "T" {
				return "true"
			}
			return "false"
		}
	case "acc":
		return p.term1(list(n[1])) + "." + n[2].(string)
	case "cat", "arith":
		as := n[1:]
		sym := "+"
		if n[0] == "arith" {
			sym, as = n[1].(string), n[2:]
		}
		if sym == "neg" {
			return "-(" + p.operand(list(as[0])) + ")"
		}
		l, r := p.operand(list(as[0])), p.operand(list(as[1]))
		s := p.sp()
		if strings.HasPrefix(r, "-") || strings.HasPrefix(r, ".") || sym != "+" {
			s = p.need()
		}
		t := l + s + sym + s + r
		if !p.open || p.chance(0.4) {
			t = "(" + t + ")"
		}
		return t
	case "call":
		return n[1].(string) + "(" + p.args(list(n[2])) + ")"
	case "tif":
		was := p.inner
		p.inner = true
		defer func() { p.inner = was }()
		return "(" + p.cond(list(n[1]), precOr) + " ? " + p.term(list(n[2])) + " : " + p.term(list(n[3])) + ")"
	}
	check(fmt.Errorf("term %v", n))
	return ""
}

// operand of a sum: no brackets are left out within
func (p *printer) operand(n []interface{}) string {
	was, in := p.open, p.inner
	p.open, p.inner = false, true // no dates either
	defer func() { p.open, p.inner = was, in }()
	return p.term(n)
}

// side of a comparison
func (p *printer) side(n []interface{}) string {
	p.open = true
	defer func() { p.open = false }()
	return p.term(n)
}

func (p *printer) args(l []interface{}) string {
	res := make([]string, len(l))
	for i, a := range l {
		res[i] = p.term(list(a))
	}
	return strings.Join(res, p.sp()+","+p.sp())
}

// Print writes a condition
func (p *printer) Print(n []interface{}) string { return p.cond(n, precTern) }

func (p *printer) cond(n []interface{}, prec int) string {
	own, text := p.cond1(n)
	if p.inner && n[0] == "meth" {
		return "(" + text + ")"
	}
	if own < prec || p.mode == 2 && own != precAtom || p.chance(0.12) {
		text = "(" + p.sp() + text + p.sp() + ")"
		if p.chance(0.1) {
			text = "(" + text + ")"
		}
	}
	return text
}

var cmpText = map[string]string{"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">=", "rx": "=~", "nrx": "!~"}

func (p *printer) cond1(n []interface{}) (int, string) {
	switch op := n[0].(string); op {
	case "and", "or":
		prec, sym := precAnd, "&&"
		if op == "or" {
			prec, sym = precOr, "||"
		}
		// a chain needs no brackets on either side
		l, r := p.cond(list(n[1]), prec), p.cond(list(n[2]), prec)
		s := p.sp()
		if strings.HasPrefix(r, "!") || strings.HasPrefix(r, "-") || strings.HasPrefix(r, ".") {
			s = p.need()
		}
		return prec, l + p.sp() + sym + s + r
	case "not":
		x := list(n[1])
		was := p.inner
		p.inner = true
		inner := p.cond(x, precTern)
		p.inner = was
		switch x[0].(string) {
		case "fn", "g", "meth", "const", "eval":
			if !strings.HasPrefix(inner, "(") && !p.chance(0.3) {
				return precAtom, "!" + inner
			}
		}
		return precAtom, "!(" + inner + ")"
	case "tern":
		was := p.inner
		p.inner = true
		defer func() { p.inner = was }()
		part := func(i int) string {
			t := p.cond(list(n[i]), precOr)
			if list(n[i])[0].(string) == "tern" && !strings.HasPrefix(t, "(") {
				t = "(" + t + ")"
			}
			return t
		}
		return precTern, part(1) + " ? " + part(2) + " : " + part(3)
	case "const":
		if n[1].(string) == "T" {
			return precAtom, "true"
		}
		return precAtom, "false"
	case "beq", "bne":
		was := p.inner
		p.inner = true
		l, r := p.cond(list(n[1]), precTern), p.cond(list(n[2]), precTern)
		p.inner = was
		return precAtom, "(" + l + ")" + p.sp() + cmpText[op[1:]] + p.sp() + "(" + r + ")"
	case "unk":
		return precAtom, n[1].(string)
	case "eq", "ne", "lt", "le", "gt", "ge":
		l, r := p.side(list(n[1])), p.side(list(n[2]))
		s := p.sp()
		if strings.HasPrefix(r, "-") || strings.HasPrefix(r, ".") {
			s = p.need()
		}
		return precAtom, l + p.sp() + cmpText[op] + s + r
	case "in":
		return precAtom, p.term(list(n[1])) + p.need() + "in" + p.need() + "(" + p.args(list(n[2])) + ")"
	case "rx", "nrx":
		return precAtom, p.term(list(n[1])) + p.sp() + cmpText[op] + p.sp() + p.quote(p.rxs[n[2].(string)])
	case "bt":
		return precAtom, p.term(list(n[1]))
	case "fn", "g":
		return precAtom, n[1].(string) + "(" + p.args(list(n[2])) + ")"
	case "meth":
		as := list(n[2])
		return precAtom, p.term1(list(as[0])) + "." + n[1].(string) + "(" + p.args(as[1:]) + ")"
	case "eval":
		s := ""
		if p.chance(0.2) {
			s = " "
		}
		return precAtom, "eval" + s + "(" + p.term(list(n[1])) + ")"
	}
	check(fmt.Errorf("condition %v", n))
	return 0, ""
}
