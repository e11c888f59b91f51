package harness

import (
	"fmt"

	f "github.com/booleworks/logicng-go/formula"
)

// projector turns arbitrary factory formulas without constraints into integer
// clauses (own Tseitin transformation) for the independent SAT procedure;
// names outside the table are auxiliary variables.
type projector struct {
	r       *CNFReader
	next    int
	clauses [][]int
	memo    map[f.Formula]int
}

func (p *projector) lit(x f.Formula) int {
	if l, ok := p.memo[x]; ok {
		return l
	}
	var l int
	fresh := func() int { p.next++; return 2 * (p.next - 1) }
	switch x.Sort() {
	case f.SortTrue, f.SortFalse:
		l = fresh()
		if x.Sort() == f.SortTrue {
			p.clauses = append(p.clauses, []int{l})
		} else {
			p.clauses = append(p.clauses, []int{l ^ 1})
		}
	case f.SortLiteral:
		l = p.r.Lit(f.Literal(x))
	case f.SortNot:
		o, _ := p.r.Fac.NotOperand(x)
		l = p.lit(o) ^ 1
	case f.SortImpl, f.SortEquiv:
		a0, b0, _ := p.r.Fac.BinaryLeftRight(x)
		a, b := p.lit(a0), p.lit(b0)
		l = fresh()
		if x.Sort() == f.SortImpl {
			p.clauses = append(p.clauses, []int{l ^ 1, a ^ 1, b}, []int{l, a}, []int{l, b ^ 1})
		} else {
			p.clauses = append(p.clauses, []int{l ^ 1, a ^ 1, b}, []int{l ^ 1, a, b ^ 1}, []int{l, a, b}, []int{l, a ^ 1, b ^ 1})
		}
	case f.SortAnd, f.SortOr:
		flip := 0
		if x.Sort() == f.SortOr {
			flip = 1
		}
		var ks []int
		for _, o := range p.r.Fac.Operands(x) {
			ks = append(ks, p.lit(o)^flip)
		}
		a := fresh()
		big := []int{a}
		for _, k := range ks {
			p.clauses = append(p.clauses, []int{a ^ 1, k})
			big = append(big, k^1)
		}
		p.clauses = append(p.clauses, big)
		l = a ^ flip
	case f.SortCC:
		// at most k: no k+1 of the variables; only as a positive top-level fact
		cmp, rhs, ls, _, _ := p.r.Fac.PBCOps(x)
		if cmp != f.LE || len(ls) > 16 {
			panic(fmt.Sprintf("constraint in projected formula %s", x.Sprint(p.r.Fac)))
		}
		l = fresh()
		var rec func(i int, cl []int, left int)
		rec = func(i int, cl []int, left int) {
			if left == 0 {
				p.clauses = append(p.clauses, append([]int{l ^ 1}, cl...))
				return
			}
			for ; i < len(ls); i++ {
				rec(i+1, append(append([]int(nil), cl...), p.r.Lit(ls[i])^1), left-1)
			}
		}
		rec(0, nil, rhs+1)
	default:
		panic(fmt.Sprintf("constraint in projected formula %s", x.Sprint(p.r.Fac)))
	}
	p.memo[x] = l
	return l
}

// project computes the set of assignments of the named variables that extend
// to a model of the conjunction of the formulas.
func project(e *Env, xs ...f.Formula) TT {
	r := newCNFReader(e.Fac, e.Names, e.NV)
	// auxiliary variables of the formulas come first
	for _, x := range xs {
		for _, v := range f.Variables(e.Fac, x).Content() {
			r.Lit(v.AsLiteral())
		}
	}
	p := &projector{r: r, next: e.NV + len(r.Aux), memo: map[f.Formula]int{}}
	for _, x := range xs {
		l := p.lit(x)
		p.clauses = append(p.clauses, []int{l})
	}
	return newCNFS(p.next, p.clauses).Projection(e.NV)
}

// projEquals checks the projection of a formula with auxiliary variables.
func projEquals(t fataler, e *Env, what string, x f.Formula, want TT) {
	got := project(e, x)
	if !got.Equal(want) {
		d := got.Xor(want).Indices()[0]
		t.Fatalf("%s: assignment %s extends to a model: %v, expected %v; result %s", what, e.assStr(d), got.Get(d), want.Get(d), e.str(x))
	}
}

type fataler interface {
	Fatalf(format string, args ...any)
}
