package harness

import (
	"fmt"
	"math/rand"
	"slices"

	"github.com/booleworks/logicng-go/assignment"
	f "github.com/booleworks/logicng-go/formula"
	"pgregory.net/rapid"
)

// size draws a number without the generator's bias for small ones.
func size(t *rapid.T, lo, hi int) int {
	if hi <= lo {
		return lo
	}
	k := pick(t, "size", 0, 1, 2, 3, 4, 5, 6, 7, 8)
	return min(hi, lo+(hi-lo)*k/8+rapid.IntRange(0, 2).Draw(t, "more"))
}

// genLongCon draws a constraint with many literals, mostly unit coefficients.
func genLongCon(t *rapid.T, nv, hi int) *N {
	n := &N{Op: OpPBC, Cmp: pick(t, "cmp", LE, LT, GE, GT, EQ), Route: 2}
	m := size(t, 2, min(hi, nv))
	kind := rapid.IntRange(0, 4).Draw(t, "coefficients")
	start, step := rapid.IntRange(0, nv-1).Draw(t, "first"), pick(t, "step", 1, 1, 3, 7)
	seen := map[int]bool{}
	sum := 0
	for i := 0; i < m; i++ {
		v := (start + i*step) % nv
		if seen[v] {
			continue
		}
		seen[v] = true
		n.Lits = append(n.Lits, L{v, kind < 2 || rapid.IntRange(0, 3).Draw(t, "pos") > 0})
		c := 1
		if kind == 4 || kind == 3 && rapid.IntRange(0, 9).Draw(t, "odd") == 0 {
			c = rapid.IntRange(-3, 5).Draw(t, "c")
		}
		n.Cs = append(n.Cs, c)
		sum += max(c, 0)
	}
	if kind == 1 {
		// one coefficient or literal somewhere makes the difference
		i := rapid.IntRange(0, len(n.Lits)-1).Draw(t, "special")
		if rapid.Bool().Draw(t, "negative") {
			n.Lits[i].Pos = false
		} else {
			n.Cs[i] = pick(t, "coefficient", 0, -1, 2, 3)
			sum += n.Cs[i]
		}
	}
	n.Rhs = rapid.IntRange(0, max(1, sum)).Draw(t, "rhs")
	if n.isCC() {
		n.Route = pick(t, "route", 0, 0, 1, 2)
	}
	return n
}

// genMany draws an n-ary operator with many operands: literals, repeated and
// complementary ones, nested operators of both sorts, long constraints, and
// seldom constants.
func genMany(t *rapid.T, nv, lo, hi, depth int, cc bool) *N {
	op := pick(t, "op", OpAnd, OpOr)
	if cc && rapid.IntRange(0, 7).Draw(t, "alone") == 0 {
		return genLongCon(t, nv, hi)
	}
	// otherwise, variables occur with one sign
	sign := map[int]bool{}
	pair := rapid.IntRange(0, 7).Draw(t, "pair") == 0
	var draw func(op Op, lo, hi, depth int) *N
	draw = func(op Op, lo, hi, depth int) *N {
		n := &N{Op: op, Route: rapid.IntRange(0, 1).Draw(t, "route")}
		m := size(t, lo, hi)
		// complements and constants decide everything: they are used in some
		// operators only
		wild := rapid.IntRange(0, 19).Draw(t, "wild") == 19
		for len(n.Kids) < m {
			switch k := rapid.IntRange(0, 29).Draw(t, "kind"); {
			case k < 20:
				l := L{rapid.IntRange(0, nv-1).Draw(t, "v"), rapid.Bool().Draw(t, "pos")}
				if s, ok := sign[l.V]; ok && !wild {
					l.Pos = s
				}
				if !wild {
					sign[l.V] = l.Pos
				}
				n.Kids = append(n.Kids, nLit(l.V, l.Pos))
			case k < 23 && len(n.Kids) > 0:
				n.Kids = append(n.Kids, n.Kids[rapid.IntRange(0, len(n.Kids)-1).Draw(t, "repeat")])
			case k < 26 && depth > 0:
				n.Kids = append(n.Kids, draw(op, 2, max(3, hi/4), depth-1))
			case k < 28 && depth > 0:
				n.Kids = append(n.Kids, draw(dualOp(op), 2, max(3, hi/4), depth-1))
			case k == 28 && depth > 0:
				n.Kids = append(n.Kids, nOp(OpNot, draw(dualOp(op), 2, max(3, hi/4), depth-1)))
			case k == 29 && cc && !wild:
				n.Kids = append(n.Kids, genLongCon(t, nv, hi))
			case k == 29 && wild:
				if rapid.Bool().Draw(t, "neg") && len(n.Kids) > 0 {
					n.Kids = append(n.Kids, nOp(OpNot, n.Kids[rapid.IntRange(0, len(n.Kids)-1).Draw(t, "of")]))
				} else if op == OpAnd {
					n.Kids = append(n.Kids, &N{Op: OpTrue})
				} else {
					n.Kids = append(n.Kids, &N{Op: OpFalse})
				}
			}
		}
		if pair && len(n.Kids) > 1 && rapid.IntRange(0, 1).Draw(t, "here") == 0 {
			pair = false
			// a single complementary pair
			i := rapid.IntRange(0, len(n.Kids)-1).Draw(t, "of")
			n.Kids = slices.Insert(n.Kids, rapid.IntRange(0, len(n.Kids)).Draw(t, "at"), nOp(OpNot, n.Kids[i]))
		}
		return n
	}
	return draw(op, lo, hi, depth)
}

// genPart draws a clause or term over distinct variables.
func genPart(t *rapid.T, nv int, op Op, hi int) *N {
	m := size(t, 2, min(hi, nv))
	start, step := rapid.IntRange(0, nv-1).Draw(t, "first"), pick(t, "step", 1, 3, 7, 11)
	signs := rapid.Uint64().Draw(t, "signs")
	n := &N{Op: op}
	seen := map[int]bool{}
	for i := 0; i < m; i++ {
		v := (start + i*step) % nv
		if !seen[v] {
			seen[v] = true
			n.Kids = append(n.Kids, nLit(v, signs>>(i%64)&1 == 0))
		}
	}
	if len(n.Kids) == 1 {
		return n.Kids[0]
	}
	return n
}

func dualOp(op Op) Op {
	if op == OpAnd {
		return OpOr
	}
	return OpAnd
}

// manyPoints returns assignments at which the operator is close to changing
// its value: all (or all but one or two) of its literals satisfied or falsified.
func manyPoints(n *N, nv int, rnd *rand.Rand) [][]bool {
	base := make([]bool, nv)
	for i := range base {
		base[i] = rnd.Intn(2) == 0
	}
	set := make([]bool, nv)
	var cons []*N
	var walk func(n *N, pos bool)
	walk = func(n *N, pos bool) {
		if n.Op == OpLit && !set[n.Lit.V] {
			set[n.Lit.V] = true
			base[n.Lit.V] = n.Lit.Pos == pos
		}
		if n.Op == OpPBC {
			cons = append(cons, n)
		}
		for _, k := range n.Kids {
			walk(k, pos != (n.Op == OpNot))
		}
	}
	walk(n, true)
	var r [][]bool
	for _, flip := range []bool{false, true} {
		b := slices.Clone(base)
		if flip {
			for i := range b {
				b[i] = !b[i]
			}
		}
		r = append(r, b)
		for i := range b {
			p := slices.Clone(b)
			p[i] = !p[i]
			r = append(r, p)
		}
		for i := 0; i < 10; i++ {
			p := slices.Clone(b)
			for j := rnd.Intn(4); j >= 0; j-- {
				v := rnd.Intn(nv)
				p[v] = !p[v]
			}
			r = append(r, p)
		}
	}
	// assignments around the bounds of the constraints
	rnd.Shuffle(len(cons), func(i, j int) { cons[i], cons[j] = cons[j], cons[i] })
	for _, n := range cons[:min(len(cons), 3)] {
		for _, off := range []int{-2, -1, 0, 0, 1, 2} {
			p := slices.Clone(base)
			sum := 0
			for i, l := range n.Lits {
				p[l.V] = l.Pos == (n.Cs[i] < 0)
				sum += min(n.Cs[i], 0)
			}
			for _, i := range rnd.Perm(len(n.Lits)) {
				if c := max(n.Cs[i], -n.Cs[i]); sum+c <= n.Rhs+off {
					sum += c
					p[n.Lits[i].V] = !p[n.Lits[i].V]
				}
			}
			r = append(r, p)
		}
	}
	return r
}

func genManyChain(t *rapid.T) (*Chain, *N) {
	nv := size(t, 3, 120)
	ch := newChain(t, genFac(t), nv, 1)
	// number the variables in the order of the names now and then
	if rapid.Bool().Draw(t, "declare") {
		for _, s := range ch.Names {
			ch.Fac.Var(s)
		}
	}
	hi := pick(t, "size", 8, 20, 40, 120)
	return ch, genMany(t, nv, min(5, hi), hi, rapid.IntRange(0, 2).Draw(t, "depth"), true)
}

func (ch *Chain) assignment(m []bool) *assignment.Assignment {
	var ls []f.Literal
	for v, b := range m {
		ls = append(ls, ch.lit(v, b))
	}
	a, err := assignment.New(ch.Fac, ls...)
	if err != nil {
		panic(err)
	}
	return a
}

// f01Many: operators with many operands.
func f01Many(t *rapid.T, c *Ctx) {
	ch, n := genManyChain(t)
	c.Doing(n.str(ch.Names))
	x := n.Build(ch.Fac, ch.Names)
	neg := ch.Fac.Not(x)
	rnd := ch.rand(t)
	pts := manyPoints(n, ch.NV, rnd)
	both := [2]int{}
	memo := func() map[f.Formula]bool { return map[f.Formula]bool{} }
	for i, m := range pts {
		want := n.eval(m)
		if want {
			both[1]++
		} else {
			both[0]++
		}
		if got := ch.evalAll(ch.Fac, x, m, memo()); got != want {
			t.Fatalf("%s is %v at %v, expected %v", x.Sprint(ch.Fac), got, m, want)
		}
		if got := ch.evalAll(ch.Fac, neg, m, memo()); got == want {
			t.Fatalf("negation of %s is %v at %v", x.Sprint(ch.Fac), got, m)
		}
		if i%8 == 0 {
			a := ch.assignment(m)
			if got := assignment.Evaluate(ch.Fac, x, a); got != want {
				t.Fatalf("Evaluate of %s is %v at %v, expected %v", x.Sprint(ch.Fac), got, m, want)
			}
		}
	}
	c.Case(t, both[0] > 0 && both[1] > 0 && n.long(), "%s", n.str(ch.Names))
	ops := ch.Fac.Operands(x)
	c.ClassIf(len(ops) > 12, "more than 12 operands")
	c.ClassIf(len(ops) > 32, "more than 32 operands")
	c.ClassIf(x.IsConstant(), "constant")
}

// noComplements: a factory that does not conserve variables simplifies trivial
// contradictions and tautologies.
func (ch *Chain) noComplements(t *rapid.T, n *N, x f.Formula) {
	if n.Op != OpAnd && n.Op != OpOr || ch.Fac.Or(ch.lit(0, true).AsFormula(), ch.lit(0, false).AsFormula()) != ch.Fac.Verum() {
		return
	}
	in := map[f.Formula]bool{}
	ops := ch.Fac.Operands(x)
	for _, o := range ops {
		in[o] = true
	}
	for _, o := range ops {
		if in[o.Negate(ch.Fac)] {
			t.Fatalf("%s contains %s and its negation", x.Sprint(ch.Fac), o.Sprint(ch.Fac))
		}
	}
}

// longConstraints: constraints with many literals do not depend on the slices
// they were built from.
func (ch *Chain) longConstraints(t *rapid.T, c *Ctx) {
	type rec struct {
		n   *N
		x   f.Formula
		str string
	}
	var rs []rec
	for i := rapid.IntRange(1, 3).Draw(t, "constraints"); i > 0; i-- {
		n := genLongCon(t, ch.NV, 70)
		x := n.Build(ch.Fac, ch.Names)
		if x.Sort() != f.SortPBC && x.Sort() != f.SortCC {
			continue
		}
		var ls []f.Literal
		var vs []f.Variable
		for _, l := range n.Lits {
			ls = append(ls, ch.lit(l.V, l.Pos))
			vs = append(vs, ch.Fac.Var(ch.Names[l.V]))
		}
		cs := slices.Clone(n.Cs)
		// a further constraint from slices which change afterwards
		y := ch.Fac.PBC(n.Cmp.Sort(), n.Rhs+1, ls, cs)
		rs = append(rs, rec{n, x, x.Sprint(ch.Fac)}, rec{nil, y, y.Sprint(ch.Fac)})
		z := ch.Fac.CC(f.LE, 1, vs...)
		rs = append(rs, rec{nil, z, z.Sprint(ch.Fac)})
		for i := range ls {
			ls[i] = ch.lit(ch.NV-1, true)
			cs[i] += 1 + i
			vs[i] = ch.Fac.Var(ch.Names[0])
		}
		for _, x := range []f.Formula{x, y} {
			if x.IsConstant() {
				continue
			}
			_, _, ls, cs, _ := ch.Fac.PBCOps(x)
			if len(ls) != len(n.Lits) || len(cs) != len(n.Lits) {
				t.Fatalf("%d literals and %d coefficients, expected %d", len(ls), len(cs), len(n.Lits))
			}
		}
		c.ClassIf(len(n.Lits) > 10, "constraint with more than 10 literals")
	}
	for _, r := range rs {
		if got := r.x.Sprint(ch.Fac); got != r.str {
			t.Fatalf("constraint changed from %s to %s", r.str, got)
		}
		if r.n != nil {
			if y := r.n.Build(ch.Fac, ch.Names); y != r.x {
				t.Fatalf("building %s again gives %s", r.str, y.Sprint(ch.Fac))
			}
		}
	}
}

// f02Many: shape and uniqueness of operators with many operands.
func f02Many(t *rapid.T, c *Ctx) {
	ch, n := genManyChain(t)
	n = n.noDups()
	c.Doing(n.str(ch.Names))
	x := n.Build(ch.Fac, ch.Names)
	c.Case(t, n.long(), "%s", n.str(ch.Names))
	shapes := func(when string, x f.Formula) {
		for _, sn := range f.SubNodes(ch.Fac, x) {
			if err := wellFormed(ch.Fac, sn); err != nil {
				t.Fatalf("%s: %s is not reduced: %v", when, sn.Sprint(ch.Fac), err)
			}
		}
	}
	shapes("built", x)
	ch.noComplements(t, n, x)
	ch.longConstraints(t, c)
	str := x.Sprint(ch.Fac)
	ops := slices.Clone(ch.Fac.Operands(x))
	// parts of the operator, then the operator again
	for i := 0; i < 6; i++ {
		m := *n
		lo := rapid.IntRange(0, len(n.Kids)).Draw(t, "lo")
		m.Kids = slices.Clone(n.Kids[lo:rapid.IntRange(lo, len(n.Kids)).Draw(t, "hi")])
		if rapid.Bool().Draw(t, "more") {
			m.Kids = append(m.Kids, nLit(rapid.IntRange(0, ch.NV-1).Draw(t, "v"), rapid.Bool().Draw(t, "pos")))
		}
		if rapid.Bool().Draw(t, "neg") {
			m.Op = dualOp(m.Op)
		}
		y := m.Build(ch.Fac, ch.Names)
		shapes("part", y)
		ch.noComplements(t, &m, y)
		for _, p := range manyPoints(&m, ch.NV, rand.New(rand.NewSource(int64(i))))[:3] {
			if got, want := ch.evalAll(ch.Fac, y, p, map[f.Formula]bool{}), m.eval(p); got != want {
				t.Fatalf("%s is %v at %v, expected %v", y.Sprint(ch.Fac), got, p, want)
			}
		}
		if y2 := m.Build(ch.Fac, ch.Names); y2 != y {
			t.Fatalf("building %s again gives %s", y.Sprint(ch.Fac), y2.Sprint(ch.Fac))
		}
		// operators over results: the result and its negation condense again
		z := ch.Fac.And(x, y)
		shapes("and", z)
		shapes("or", ch.Fac.Or(x, y, ch.Fac.Not(z)))
	}
	if y := n.Build(ch.Fac, ch.Names); y != x || y.Sprint(ch.Fac) != str || !slices.Equal(ch.Fac.Operands(x), ops) {
		t.Fatalf("building %s again gives %s", str, y.Sprint(ch.Fac))
	}
}

// f01Similar: a great many formulas on one factory which differ in few
// operands, coefficients, comparators or bounds only.
func f01Similar(t *rapid.T, c *Ctx) {
	nv := rapid.IntRange(12, 60).Draw(t, "nv")
	fac := genFac(t)
	vs := make([]f.Variable, nv)
	lits := make([]f.Literal, 0, 2*nv)
	for i := range vs {
		vs[i] = fac.Var(fmt.Sprintf("v%d", i))
	}
	for _, v := range vs {
		lits = append(lits, v.AsLiteral())
	}
	if rapid.Bool().Draw(t, "negative") {
		for _, v := range vs {
			lits = append(lits, v.Negate(fac))
		}
	}
	kind := rapid.IntRange(0, 5).Draw(t, "kind")
	npre, npost := rapid.IntRange(0, 3).Draw(t, "pre"), rapid.IntRange(0, 2).Draw(t, "post")
	c.Case(t, true, "kind %d, %d variables, %d+2+%d operands", kind, nv, npre, npost)
	if kind >= 4 {
		f01SimilarConstraints(t, c, fac, vs, lits, kind == 5, npre+npost)
		return
	}
	// the other operands: literals of further variables, or small formulas
	other := func(label string, k int) []f.Formula {
		var r []f.Formula
		for i := 0; i < k; i++ {
			l := fac.Lit(fmt.Sprintf("%s%d", label, i), rapid.Bool().Draw(t, "pos"))
			x := l.AsFormula()
			if kind < 2 && rapid.IntRange(0, 2).Draw(t, "compound") == 0 {
				x = fac.Equivalence(x, lits[i].AsFormula())
			}
			r = append(r, x)
		}
		return r
	}
	pre, post := other("p", npre), other("q", npost)
	compound := kind < 2 && rapid.IntRange(0, 2).Draw(t, "compounds") == 0
	elem := func(i int) f.Formula { return lits[i].AsFormula() }
	if compound {
		elem = func(i int) f.Formula { return fac.Implication(lits[i].AsFormula(), vs[(i+1)%nv].AsFormula()) }
		c.Class("compound operands")
	}
	c.Class([]string{"and", "or", "minterm", "clause"}[kind])
	for i := range lits {
		for j := range lits {
			if i == j || lits[i].Variable() == lits[j].Variable() {
				continue
			}
			a, b := elem(i), elem(j)
			if a.IsConstant() || b.IsConstant() || a == b {
				continue
			}
			ops := append(append(slices.Clone(pre), a, b), post...)
			var x f.Formula
			switch kind {
			case 0:
				x = fac.And(ops...)
			case 1:
				x = fac.Or(ops...)
			default:
				var ls []f.Literal
				for _, o := range ops {
					ls = append(ls, f.Literal(o))
				}
				if kind == 2 {
					x = fac.Minterm(ls...)
				} else {
					x = fac.Clause(ls...)
				}
			}
			want := f.SortAnd
			if kind%2 == 1 {
				want = f.SortOr
			}
			got := fac.Operands(x)
			if x.Sort() != want || len(got) != len(ops) {
				t.Fatalf("%v of %d operands ending with %s, %s: %s", want, len(ops), a.Sprint(fac), b.Sprint(fac), x.Sprint(fac))
			}
			for k := range got {
				if got[k] != ops[k] && !slices.Contains(got, ops[k]) {
					t.Fatalf("operand %s is missing in %s", ops[k].Sprint(fac), x.Sprint(fac))
				}
			}
		}
	}
}

func f01SimilarConstraints(t *rapid.T, c *Ctx, fac f.Factory, vs []f.Variable, lits []f.Literal, pb bool, k int) {
	k = max(2, min(k, 4))
	cmps := []Cmp{EQ, LE, LT, GE, GT}
	check := func(cmp Cmp, rhs int, ls []f.Literal, cs []int, x f.Formula) {
		val := func(mask int) bool {
			sum := 0
			for i := range ls {
				if mask>>i&1 == 1 {
					sum += cs[i]
				}
			}
			return cmp.Eval(sum, rhs)
		}
		switch x.Sort() {
		case f.SortTrue, f.SortFalse:
			for mask := 0; mask < 1<<len(ls); mask++ {
				if val(mask) != (x.Sort() == f.SortTrue) {
					t.Fatalf("%v %v %v %d is %v", cs, ls, cmp, rhs, x.Sort())
				}
			}
		case f.SortCC, f.SortPBC:
			gc, gr, gl, gcs, _ := fac.PBCOps(x)
			for mask := 0; mask < 1<<len(ls); mask++ {
				sum := 0
				for i := range gl {
					j := slices.Index(ls, gl[i])
					if j < 0 {
						t.Fatalf("constraint over %v (%v %v %d) has the literal %s: %s", ls, cs, cmp, rhs, gl[i].Sprint(fac), x.Sprint(fac))
					}
					if mask>>j&1 == 1 {
						sum += gcs[i]
					}
				}
				if cmpOf(gc).Eval(sum, gr) != val(mask) {
					t.Fatalf("%v %v %v %d is %s", cs, ls, cmp, rhs, x.Sprint(fac))
				}
			}
		default:
			t.Fatalf("constraint of sort %v", x.Sort())
		}
	}
	if !pb {
		c.Class("cardinality constraints")
		for i := range vs {
			for j := range vs {
				if i == j {
					continue
				}
				us := []f.Variable{vs[i], vs[j]}
				for len(us) < k {
					us = append(us, fac.Var(fmt.Sprintf("w%d", len(us))))
				}
				cmp := cmps[(i*7+j)%5]
				rhs := (i + j) % (k + 2)
				ones := slices.Repeat([]int{1}, k)
				check(cmp, rhs, f.VariablesAsLiterals(us), ones, fac.CC(cmp.Sort(), uint32(rhs), us...))
				check(cmp, rhs-1, f.VariablesAsLiterals(us), ones, fac.PBC(cmp.Sort(), rhs-1, f.VariablesAsLiterals(us), ones))
			}
		}
		return
	}
	c.Class("pseudo-Boolean constraints")
	ls := lits[:k]
	if rapid.Bool().Draw(t, "last") {
		ls = lits[len(lits)-k:]
	}
	rest := rapid.SliceOfN(rapid.IntRange(-3, 3), k, k).Draw(t, "coefficients")
	at := rapid.IntRange(0, k-2).Draw(t, "at")
	r := rapid.IntRange(2, 36).Draw(t, "range")
	rhs := rapid.SliceOfN(rapid.IntRange(-40, 40), 1, 4).Draw(t, "rhs")
	for a := -r; a <= r; a++ {
		for b := -r; b <= r; b++ {
			cs := slices.Clone(rest)
			cs[at], cs[at+1] = a, b
			for _, h := range rhs {
				cmp := cmps[(a*7+b+3*h)%5&3]
				check(cmp, h, ls, cs, fac.PBC(cmp.Sort(), h, ls, slices.Clone(cs)))
			}
		}
	}
	// all comparators and bounds
	for h := -r; h <= r; h++ {
		for _, cmp := range cmps {
			check(cmp, h, ls, rest, fac.PBC(cmp.Sort(), h, ls, slices.Clone(rest)))
		}
	}
}
