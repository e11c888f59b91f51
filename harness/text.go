package harness

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// genText renders a composition as input text with random white space and
// random redundant parentheses; minimal parentheses follow the documented
// precedence ~ > & > | > => > <=> (the binary operators right-associative).
type texter struct {
	t     *rapid.T
	names Names
}

func (x *texter) ws() string {
	return []string{"", "", "", " ", " ", "  ", "\t", "\n", " \r\n"}[rapid.IntRange(0, 8).Draw(x.t, "ws")]
}

const (
	pEquiv = iota
	pImpl
	pOr
	pAnd
	pLit
)

func (x *texter) render(n *N, prec int) string {
	s, p := x.raw(n)
	if p < prec || rapid.IntRange(0, 9).Draw(x.t, "paren") == 0 {
		return "(" + x.ws() + s + x.ws() + ")"
	}
	return s
}

func (x *texter) lit(l L) string {
	if l.Pos {
		return x.names[l.V]
	}
	return "~" + x.names[l.V]
}

func (x *texter) raw(n *N) (string, int) {
	switch n.Op {
	case OpFalse:
		return "$false", pLit
	case OpTrue:
		return "$true", pLit
	case OpLit:
		if !n.Lit.Pos {
			return "~" + x.ws() + x.names[n.Lit.V], pLit
		}
		return x.names[n.Lit.V], pLit
	case OpNot:
		k := n.Kids[0]
		for (k.Op == OpAnd || k.Op == OpOr) && len(k.Kids) == 1 {
			k = k.Kids[0]
		}
		if k.Op == OpPBC { // "~" directly before a comparison would bind to its first literal
			return "~" + x.ws() + "(" + x.render(k, pLit) + ")", pLit
		}
		return "~" + x.ws() + x.render(n.Kids[0], pLit), pLit
	case OpAnd, OpOr:
		if len(n.Kids) == 0 {
			if n.Op == OpAnd {
				return "$true", pLit
			}
			return "$false", pLit
		}
		if len(n.Kids) == 1 {
			return x.raw(n.Kids[0])
		}
		sep, p := "&", pAnd
		if n.Op == OpOr {
			sep, p = "|", pOr
		}
		var parts []string
		for _, k := range n.Kids {
			parts = append(parts, x.render(k, p+1))
		}
		var sb strings.Builder
		for i, q := range parts {
			if i > 0 {
				sb.WriteString(x.ws() + sep + x.ws())
			}
			sb.WriteString(q)
		}
		return sb.String(), p
	case OpImpl:
		return x.render(n.Kids[0], pOr) + x.ws() + "=>" + x.ws() + x.render(n.Kids[1], pImpl), pImpl
	case OpEquiv:
		return x.render(n.Kids[0], pImpl) + x.ws() + "<=>" + x.ws() + x.render(n.Kids[1], pEquiv), pEquiv
	}
	if len(n.Lits) == 0 {
		if n.Cmp.Eval(0, n.Rhs) {
			return "$true", pLit
		}
		return "$false", pLit
	}
	var sb strings.Builder
	for i, l := range n.Lits {
		if i > 0 {
			sb.WriteString(x.ws() + "+" + x.ws())
		}
		if n.Cs[i] != 1 || rapid.IntRange(0, 3).Draw(x.t, "one") == 0 {
			sb.WriteString(fmt.Sprintf("%d%s*%s", n.Cs[i], x.ws(), x.ws()))
		}
		sb.WriteString(x.lit(l))
	}
	sb.WriteString(x.ws() + n.Cmp.String() + x.ws() + fmt.Sprint(n.Rhs))
	return sb.String(), pLit
}

// ---- independent recogniser and evaluator of the documented grammar ----

type tok struct {
	k string // NUM LIT or the symbol
	s string
}

func isNameStart(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '@' || c == '#'
}
func isNameChar(c byte) bool { return isNameStart(c) && c != '@' }
func isDigit(c byte) bool    { return c >= '0' && c <= '9' }

// lexText splits text by longest match (first rule wins ties).
func lexText(s string) ([]tok, bool) {
	var r []tok
	for i := 0; i < len(s); {
		if strings.IndexByte(" \t\r\n", s[i]) >= 0 {
			i++
			continue
		}
		// number
		j := i
		if s[j] == '-' {
			j++
		}
		k := j
		for k < len(s) && isDigit(s[k]) {
			k++
		}
		num := 0
		if k > j {
			num = k - i
		}
		// literal
		j = i
		if s[j] == '~' {
			j++
		}
		lit := 0
		if j < len(s) && isNameStart(s[j]) {
			k = j + 1
			for k < len(s) && isNameChar(s[k]) {
				k++
			}
			lit = k - i
		}
		sym := ""
		for _, y := range []string{"$false", "$true", "<=>", "=>", "<=", ">=", "(", ")", "~", "&", "|", "*", "+", "=", "<", ">"} {
			if strings.HasPrefix(s[i:], y) && len(y) > len(sym) {
				sym = y
			}
		}
		switch {
		case num > 0 && num >= lit && num >= len(sym):
			r = append(r, tok{"NUM", s[i : i+num]})
			i += num
		case lit > 0 && lit >= len(sym):
			r = append(r, tok{"LIT", s[i : i+lit]})
			i += lit
		case sym != "":
			r = append(r, tok{sym, sym})
			i += len(sym)
		default:
			return r, false
		}
	}
	return r, true
}

type pErr struct{}

// refParser evaluates texts over a name table; names are assigned on the fly.
type refParser struct {
	toks []tok
	pos  int
	idx  map[string]int
	list []string
}

func (p *refParser) peek() string {
	if p.pos < len(p.toks) {
		return p.toks[p.pos].k
	}
	return ""
}
func (p *refParser) next() tok {
	if p.pos >= len(p.toks) {
		panic(pErr{})
	}
	p.pos++
	return p.toks[p.pos-1]
}
func (p *refParser) expect(k string) tok {
	x := p.next()
	if x.k != k {
		panic(pErr{})
	}
	return x
}
func (p *refParser) v(name string) int {
	i, ok := p.idx[name]
	if !ok {
		i = len(p.list)
		p.idx[name] = i
		p.list = append(p.list, name)
	}
	return i
}
func (p *refParser) litOf(s string) L {
	if s[0] == '~' {
		return L{p.v(s[1:]), false}
	}
	return L{p.v(s), true}
}

// refParse parses text; ok is false if the text is not in the grammar.
func refParse(s string) (n *N, names []string, ok bool) {
	n, names, rest, ok := refParsePrefix(s)
	if rest {
		return nil, nil, false
	}
	return n, names, ok
}

// refParsePrefix parses the longest formula text starts with; rest reports
// that further input follows it.
func refParsePrefix(s string) (n *N, names []string, rest, ok bool) {
	toks, lok := lexText(s)
	p := &refParser{toks: toks, idx: map[string]int{}}
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(pErr); is {
				n, ok, rest = nil, false, false
				return
			}
			panic(r)
		}
	}()
	if len(toks) == 0 && lok {
		return &N{Op: OpTrue}, nil, false, true
	}
	n = p.equiv()
	return n, p.list, !lok || p.pos != len(p.toks), true
}

func (p *refParser) equiv() *N {
	l := p.impl()
	if p.peek() == "<=>" {
		p.next()
		return nOp(OpEquiv, l, p.equiv())
	}
	return l
}
func (p *refParser) impl() *N {
	l := p.nary("|")
	if p.peek() == "=>" {
		p.next()
		return nOp(OpImpl, l, p.impl())
	}
	return l
}
func (p *refParser) nary(sep string) *N {
	sub := func() *N {
		if sep == "|" {
			return p.nary("&")
		}
		return p.litRule()
	}
	ks := []*N{sub()}
	for p.peek() == sep {
		p.next()
		ks = append(ks, sub())
	}
	if len(ks) == 1 {
		return ks[0]
	}
	if sep == "|" {
		return nOp(OpOr, ks...)
	}
	return nOp(OpAnd, ks...)
}
func (p *refParser) litRule() *N {
	if p.peek() == "~" {
		p.next()
		return nOp(OpNot, p.litRule())
	}
	switch p.peek() {
	case "$true":
		p.next()
		return &N{Op: OpTrue}
	case "$false":
		p.next()
		return &N{Op: OpFalse}
	case "(":
		p.next()
		n := p.equiv()
		p.expect(")")
		return n
	case "LIT", "NUM":
	default:
		panic(pErr{})
	}
	// literal or comparison
	start := p.pos
	first := p.next()
	switch p.peek() {
	case "*":
		if first.k == "NUM" {
			p.pos = start
			return p.comparison()
		}
	case "+", "=", "<=", "<", ">=", ">":
		p.pos = start
		return p.comparison()
	}
	return &N{Op: OpLit, Lit: p.litOf(first.s)}
}
func (p *refParser) comparison() *N {
	n := &N{Op: OpPBC}
	for {
		x := p.next()
		if x.k != "LIT" && x.k != "NUM" {
			panic(pErr{})
		}
		c := 1
		if x.k == "NUM" && p.peek() == "*" {
			p.next()
			c = atoi(x.s)
			x = p.next()
			if x.k != "LIT" && x.k != "NUM" {
				panic(pErr{})
			}
		}
		n.Lits = append(n.Lits, p.litOf(x.s))
		n.Cs = append(n.Cs, c)
		if p.peek() != "+" {
			break
		}
		p.next()
	}
	switch p.next().k {
	case "=":
		n.Cmp = EQ
	case "<=":
		n.Cmp = LE
	case "<":
		n.Cmp = LT
	case ">=":
		n.Cmp = GE
	case ">":
		n.Cmp = GT
	default:
		panic(pErr{})
	}
	n.Rhs = atoi(p.expect("NUM").s)
	return n
}

func atoi(s string) int {
	v, neg := 0, false
	for i := 0; i < len(s); i++ {
		if s[i] == '-' {
			neg = true
			continue
		}
		d := int(s[i] - '0')
		if v > (1<<62)/10 {
			panic(pErr{}) // does not fit: to be rejected
		}
		v = v*10 + d
	}
	if neg {
		return -v
	}
	return v
}
