package harness

import (
	"fmt"
	"maps"
	"math/big"
	"math/bits"
	"math/rand"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/dnnf"
	"github.com/booleworks/logicng-go/explanation"
	"github.com/booleworks/logicng-go/explanation/mus"
	"github.com/booleworks/logicng-go/explanation/smus"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/maxsat"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/primeimplicant"
	"github.com/booleworks/logicng-go/sat"
	"pgregory.net/rapid"
)

// LongCNF is a set of few, but long, clauses (with some short ones); its
// models are counted by inclusion and exclusion.
type LongCNF struct {
	*Chain
	cls []*N
	n   *N
	x   f.Formula
}

func genLongCNF(t *rapid.T, lo, hi, clauses int) *LongCNF {
	l := &LongCNF{Chain: newChain(t, genFac(t), size(t, lo, hi), 1)}
	for i := rapid.IntRange(1, clauses).Draw(t, "clauses"); i > 0; i-- {
		l.cls = append(l.cls, genPart(t, l.NV, OpOr, pick(t, "len", 4, 16, 40, 70)))
	}
	l.n = nOp(OpAnd, l.cls...)
	if len(l.cls) == 1 {
		l.n = l.cls[0]
	}
	l.x = l.n.Build(l.Fac, l.Names)
	return l
}

func (n *N) clauseLits() []L {
	if n.Op == OpLit {
		return []L{n.Lit}
	}
	var r []L
	for _, k := range n.Kids {
		r = append(r, k.Lit)
	}
	return r
}

// count counts the models over nv variables.
func (l *LongCNF) count(nv int) *big.Int {
	r := new(big.Int)
	for s := 0; s < 1<<len(l.cls); s++ {
		val := map[int]bool{}
		sign, ok := 1, true
		for i, c := range l.cls {
			if s>>i&1 == 0 {
				continue
			}
			sign = -sign
			for _, x := range c.clauseLits() {
				if v, is := val[x.V]; is && v == x.Pos {
					ok = false
				}
				val[x.V] = !x.Pos
			}
		}
		if !ok {
			continue
		}
		p := bigPow2(nv - len(val))
		if sign > 0 {
			r.Add(r, p)
		} else {
			r.Sub(r, p)
		}
	}
	return r
}

func (l *LongCNF) points(rnd *rand.Rand, every int) [][]bool {
	var r [][]bool
	for _, m := range manyPoints(l.n, l.NV, rnd) {
		if rnd.Intn(every) == 0 {
			r = append(r, m)
		}
	}
	// one clause falsified, but for one literal
	for _, c := range l.cls {
		m := make([]bool, l.NV)
		for v := range m {
			m[v] = rnd.Intn(2) == 0
		}
		ls := c.clauseLits()
		for _, x := range ls {
			m[x.V] = !x.Pos
		}
		r = append(r, m)
		m = slices.Clone(m)
		x := ls[rnd.Intn(len(ls))]
		m[x.V] = x.Pos
		r = append(r, m)
	}
	return r
}

// d01Long: DNNFs of long clauses.
func d01Long(t *rapid.T, c *Ctx) {
	l := genLongCNF(t, 6, 90, 8)
	c.Doing(l.n.str(l.Names))
	c.Case(t, l.n.long(), "%s", l.n.str(l.Names))
	used := len(l.used(l.x))
	if l.x.IsConstant() {
		used = l.NV
	}
	want := l.count(used)
	d := dnnf.Compile(l.Fac, l.x)
	for i := 0; i < 2; i++ {
		if got := d.ModelCount(); got.Cmp(want) != 0 {
			t.Fatalf("model count %d is %v, expected %v", i+1, got, want)
		}
	}
	l.decomposable(t, d.Formula)
	for _, m := range l.points(l.rand(t), 4) {
		if got, want := l.deterministic(t, d.Formula, m), l.n.eval(m); got != want {
			t.Fatalf("the DNNF evaluates to %v, the formula to %v", got, want)
		}
	}
	c.ClassIf(want.BitLen() > 64, "count exceeds 64 bits")
	c.ClassIf(f.NumberOfNodes(l.Fac, d.Formula) > 200, "DNNF with more than 200 nodes")
}

// decomposable checks that the conjunctions of an NNF have no common variables.
func (ch *Chain) decomposable(t *rapid.T, x f.Formula) {
	if !isNNFShape(ch.Fac, x) {
		t.Fatalf("DNNF is not in negation normal form")
	}
	type set = map[int]bool
	memo := map[f.Formula]set{}
	var walk func(y f.Formula) set
	walk = func(y f.Formula) set {
		if r, ok := memo[y]; ok {
			return r
		}
		r := set{}
		switch y.Sort() {
		case f.SortLiteral:
			name, _, _ := ch.Fac.LitNamePhase(f.Literal(y))
			i, ok := ch.idx[name]
			if !ok {
				t.Fatalf("DNNF has foreign variable %s", name)
			}
			r[i] = true
		case f.SortAnd, f.SortOr:
			for _, o := range ch.Fac.Operands(y) {
				for v := range walk(o) {
					if y.Sort() == f.SortAnd && r[v] {
						t.Fatalf("the operands of a conjunction share the variable %s", ch.Names[v])
					}
					r[v] = true
				}
			}
		}
		memo[y] = r
		return r
	}
	walk(x)
}

// deterministic evaluates an NNF and checks that no disjunction has two
// satisfied operands.
func (ch *Chain) deterministic(t *rapid.T, x f.Formula, m []bool) bool {
	vals := map[f.Formula]bool{}
	r := ch.evalF(x, m, vals)
	for y := range vals {
		if y.Sort() == f.SortOr {
			n := 0
			for _, o := range ch.Fac.Operands(y) {
				if vals[o] {
					n++
				}
			}
			if n > 1 {
				t.Fatalf("the operands of a disjunction have a common model")
			}
		}
	}
	return r
}

// c03Long: counts of long clauses.
func c03Long(t *rapid.T, c *Ctx) {
	l := genLongCNF(t, 6, 90, 7)
	c.Doing(l.n.str(l.Names))
	c.Case(t, l.n.long(), "%s", l.n.str(l.Names))
	want := l.count(l.NV)
	c.ClassIf(want.BitLen() > 64, "count exceeds 64 bits")
	xs := []f.Formula{l.x}
	if l.x.Sort() == f.SortAnd && rapid.Bool().Draw(t, "split") {
		xs = l.Fac.Operands(l.x)
	}
	got, err := count.Count(l.Fac, l.vars(), xs...)
	if err != nil || got.Cmp(want) != 0 {
		t.Fatalf("count.Count yields %v %v, expected %v", got, err, want)
	}
	// an at-most-one constraint beside the clauses
	k := size(t, 2, 40)
	var vs []f.Variable
	for i := 0; i < k; i++ {
		vs = append(vs, l.Fac.Var(fmt.Sprintf("y%d", i)))
	}
	con, factor := l.Fac.AMO(vs...), k+1
	if rapid.Bool().Draw(t, "exo") {
		con, factor = l.Fac.EXO(vs...), k
	}
	got, err = count.Count(l.Fac, append(l.vars(), vs...), append(slices.Clone(xs), con)...)
	want.Mul(want, big.NewInt(int64(factor)))
	if err != nil || got.Cmp(want) != 0 {
		t.Fatalf("with %s: count.Count yields %v %v, expected %v", con.Sprint(l.Fac), got, err, want)
	}
}

// b01Long: diagrams of long clauses, terms and their combinations.
func b01Long(t *rapid.T, c *Ctx) {
	l := genLongCNF(t, 6, 60, 6)
	note := l.n.str(l.Names)
	c.Doing(note)
	c.Case(t, l.n.long(), "%s", note)
	order := l.vars()
	rnd := l.rand(t)
	if rapid.Bool().Draw(t, "shuffle") {
		rnd.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	}
	k := bdd.NewKernelWithOrdering(l.Fac, order, int32(pick(t, "nodes", 5, 100, 2000)), int32(pick(t, "cache", 5, 100, 2000)))
	b := bdd.CompileWithKernel(l.Fac, l.x, k)
	neg := bdd.CompileWithKernel(l.Fac, l.Fac.Not(l.x), k)
	var parts *bdd.BDD
	for _, cl := range l.cls {
		p := bdd.CompileWithKernel(l.Fac, cl.Build(l.Fac, l.Names), k)
		if parts == nil {
			parts = p
		} else {
			parts = parts.And(p)
		}
	}
	want := l.count(l.NV)
	for _, x := range []*bdd.BDD{b, parts, neg.Negate()} {
		if x.Index != b.Index {
			t.Fatalf("equivalent diagrams with different indices")
		}
		if got := x.ModelCount(); got.Cmp(want) != 0 {
			t.Fatalf("model count %v, expected %v", got, want)
		}
	}
	if got := neg.ModelCount(); got.Add(got, want).Cmp(bigPow2(l.NV)) != 0 {
		t.Fatalf("model counts of %s and its negation do not add up", note)
	}
	root := b.NodeRepresentation()
	for _, m := range l.points(rnd, 2) {
		n := root
		for n.InnerNode() {
			if m[l.idx[n.Label()]] {
				n = n.High()
			} else {
				n = n.Low()
			}
		}
		if got, want := n.Label() == "$true", l.n.eval(m); got != want {
			t.Fatalf("the diagram evaluates to %v, the formula to %v", got, want)
		}
	}
	// a single clause has as many inner nodes as literals, and one path to 0
	if len(l.cls) == 1 {
		if got, want := b.NodeCount(), len(l.cls[0].clauseLits()); got != want {
			t.Fatalf("%d nodes, expected %d", got, want)
		}
		if got := b.PathCountZero(); got.Cmp(big.NewInt(1)) != 0 {
			t.Fatalf("%v paths to the terminal 0", got)
		}
	}
	if s := b.Support(); len(s) != len(l.used(b.ToFormula(l.Fac, true))) && !b.IsTautology() && !b.IsContradiction() {
		t.Fatalf("support of %d variables", len(s))
	}
}

// r01Long: minimum implicants of long clauses (smallest hitting sets) and
// the primes of single clauses, terms and at-most-one constraints.
// r01Unate: primes of a disjunction of long overlapping terms (or conjunction
// of clauses) in which every variable has one sign only.  Its primes are
// exactly its minimal terms, and the other side consists of minimal hitting
// sets of them.
func r01Unate(t *rapid.T, c *Ctx) {
	fac := genFac(t)
	nv := size(t, 3, 22)
	vs := fac.Vars(genNamesN(nv)...)
	signs := rapid.Uint32().Draw(t, "signs")
	lits := make([]f.Literal, nv)
	for i, v := range vs {
		if lits[i] = v.AsLiteral(); signs>>i&1 == 1 {
			lits[i] = v.Negate(fac)
		}
	}
	perm := genPerm(t, nv, "order")
	// a common part and few literals of each term's own
	base := size(t, 0, max(nv-2, 0))
	var terms []uint32
	for k := rapid.IntRange(1, 4).Draw(t, "terms"); k > 0; k-- {
		var m uint32
		for i := 0; i < base; i++ {
			m |= 1 << perm[i]
		}
		if rapid.IntRange(0, 2).Draw(t, "drop") == 0 && base > 1 {
			m &^= 1 << perm[rapid.IntRange(0, base-1).Draw(t, "without")]
		}
		for j := rapid.IntRange(1, 3).Draw(t, "own"); j > 0; j-- {
			m |= 1 << perm[rapid.IntRange(base, nv-1).Draw(t, "lit")]
		}
		terms = append(terms, m)
	}
	prime := map[uint32]bool{}
	long := false
	for _, m := range terms {
		if !slices.ContainsFunc(terms, func(o uint32) bool { return o != m && o&^m == 0 }) {
			prime[m] = true
			long = long || bits.OnesCount32(m) > 10
		}
	}
	dnf := rapid.Bool().Draw(t, "dnf")
	var ops []f.Formula
	for _, m := range terms {
		var xs []f.Formula
		for i := 0; i < nv; i++ {
			if m>>perm[i]&1 == 1 {
				xs = append(xs, lits[perm[i]].AsFormula())
			}
		}
		if dnf {
			ops = append(ops, fac.And(xs...))
		} else {
			ops = append(ops, fac.Or(xs...))
		}
	}
	x := fac.Or(ops...)
	if !dnf {
		x = fac.And(ops...)
	}
	sort := pick(t, "sort", primeimplicant.CoverImplicants, primeimplicant.CoverImplicates)
	maximize := rapid.Bool().Draw(t, "maximize")
	c.Doing(x.Sprint(fac))
	c.Case(t, len(prime) > 1, "%s sort=%v max=%v", x.Sprint(fac), sort, maximize)
	c.ClassIf(long, "more than ten literals in a prime")
	var res *primeimplicant.PrimeResult
	if maximize {
		res = primeimplicant.CoverMax(fac, x, sort)
	} else {
		res = primeimplicant.CoverMin(fac, x, sort)
	}
	same, other := res.Implicants, res.Implicates
	if !dnf {
		same, other = other, same
	}
	masks := func(ps [][]f.Literal) map[uint32]bool {
		r := map[uint32]bool{}
		for _, p := range ps {
			var m uint32
			for _, l := range p {
				i := slices.Index(lits, l)
				if i < 0 {
					t.Fatalf("prime of %s with the literal %s", x.Sprint(fac), l.Sprint(fac))
				}
				m |= 1 << i
			}
			if r[m] {
				t.Fatalf("a prime of %s occurs twice", x.Sprint(fac))
			}
			r[m] = true
		}
		return r
	}
	// the terms themselves: all of them are essential, so in either kind of
	// cover there is no other choice
	if got := masks(same); !maps.Equal(got, prime) {
		t.Fatalf("%s has the primes %v, got %v", x.Sprint(fac), prime, got)
	}
	// the hitting sets, complete if requested
	hits := map[uint32]bool{0: true}
	for m := range prime {
		next := map[uint32]bool{}
		for h := range hits {
			if h&m != 0 {
				next[h] = true
				continue
			}
			for i := 0; i < nv; i++ {
				if m>>i&1 == 1 {
					next[h|1<<i] = true
				}
			}
		}
		hits = map[uint32]bool{}
		for h := range next {
			minimal := true
			for i := 0; i < nv; i++ {
				minimal = minimal && (h>>i&1 == 0 || !next[h&^(1<<i)])
			}
			if minimal {
				hits[h] = true
			}
		}
	}
	minimal := func(h uint32) bool {
		for m := range prime {
			if h&m == 0 {
				return false
			}
		}
		for i := 0; i < nv; i++ {
			need := h>>i&1 == 0
			for m := range prime {
				need = need || h&m == 1<<i
			}
			if !need {
				return false
			}
		}
		return true
	}
	want := map[uint32]bool{}
	for h := range hits {
		if minimal(h) {
			want[h] = true
		}
	}
	got := masks(other)
	for h := range got {
		if !want[h] {
			t.Fatalf("%s: %b is not a minimal hitting set of %v", x.Sprint(fac), h, prime)
		}
	}
	if len(got) != len(want) {
		// primes of a monotone function are all essential
		t.Fatalf("%s has %d primes on the other side, got %d", x.Sprint(fac), len(want), len(got))
	}
}

func r01Long(t *rapid.T, c *Ctx) {
	if rapid.IntRange(0, 2).Draw(t, "unate") == 0 {
		r01Unate(t, c)
		return
	}
	l := genLongCNF(t, 6, 60, 4)
	c.Doing(l.n.str(l.Names))
	c.Case(t, l.n.long(), "%s", l.n.str(l.Names))
	if len(l.cls) == 1 || rapid.IntRange(0, 3).Draw(t, "single") == 0 {
		cl := l.cls[0].clauseLits()
		cl = cl[:min(len(cl), 14)]
		var xs []f.Formula
		for _, x := range cl {
			xs = append(xs, l.lit(x.V, x.Pos).AsFormula())
		}
		term := rapid.Bool().Draw(t, "term")
		x := l.Fac.Or(xs...)
		if term {
			x = l.Fac.And(xs...)
		}
		sort := pick(t, "sort", primeimplicant.CoverImplicants, primeimplicant.CoverImplicates)
		res := primeimplicant.CoverMax(l.Fac, x, sort)
		one, many := res.Implicates, res.Implicants
		if term {
			one, many = many, one
		}
		if len(one) != 1 || len(one[0]) != len(cl) || len(many) != len(cl) {
			t.Fatalf("primes of %s: %d and %d", x.Sprint(l.Fac), len(one), len(many))
		}
		for _, y := range cl {
			lit := l.lit(y.V, y.Pos)
			if !slices.Contains(one[0], lit) || !slices.ContainsFunc(many, func(p []f.Literal) bool { return len(p) == 1 && p[0] == lit }) {
				t.Fatalf("%s is missing in the primes of %s", lit.Sprint(l.Fac), x.Sprint(l.Fac))
			}
		}
		c.Class("primes of a clause or term")
		return
	}
	got, err := primeimplicant.Minimum(l.Fac, l.x)
	ref := newRefCNF(l.NV)
	top := ref.lit(l.n)
	if sat := ref.sat(top); (err == nil) != sat {
		t.Fatalf("minimum implicant: error %v, satisfiable %v", err, sat)
	} else if !sat {
		return
	}
	ass := l.model(t, got)
	for _, cl := range l.cls {
		hit := false
		for _, x := range cl.clauseLits() {
			if v, ok := ass[x.V]; ok && v == x.Pos {
				hit = true
			}
		}
		if !hit {
			t.Fatalf("the minimum implicant does not imply %s", cl.str(l.Names))
		}
	}
	// a smaller one: one literal per clause, less of them in total
	best := len(l.cls) + 1
	var rec func(i int, m map[int]bool)
	rec = func(i int, m map[int]bool) {
		if len(m) >= best {
			return
		}
		for ; i < len(l.cls); i++ {
			hit := false
			for _, x := range l.cls[i].clauseLits() {
				if v, ok := m[x.V]; ok && v == x.Pos {
					hit = true
				}
			}
			if !hit {
				break
			}
		}
		if i == len(l.cls) {
			best = len(m)
			return
		}
		for _, x := range l.cls[i].clauseLits() {
			if _, ok := m[x.V]; !ok {
				m[x.V] = x.Pos
				rec(i+1, m)
				delete(m, x.V)
			}
		}
	}
	rec(0, map[int]bool{})
	if len(got) != best {
		t.Fatalf("minimum implicant with %d literals, expected %d", len(got), best)
	}
	c.Class("minimum implicant")
}

// x01Long: minimal unsatisfiable subsets of lists with long clauses.
func x01Long(t *rapid.T, c *Ctx) {
	fac := genFac(t)
	nv := size(t, 6, 40)
	ch := newChain(t, fac, nv, 1)
	ref := newRefCNF(nv)
	// a long clause and what contradicts each of its literals, mostly directly
	core := genPart(t, nv, OpOr, pick(t, "len", 4, 10, 18))
	ns := []*N{core}
	for _, x := range core.clauseLits() {
		neg := nLit(x.V, !x.Pos)
		if rapid.IntRange(0, 3).Draw(t, "via") == 0 {
			y := genLit(t, nv)
			ns = append(ns, nOp(OpOr, neg, nLit(y.V, y.Pos)), nOp(OpOr, neg, nLit(y.V, !y.Pos)))
		} else {
			ns = append(ns, neg)
		}
	}
	for i := rapid.IntRange(0, 8).Draw(t, "noise"); i > 0; i-- {
		ns = append(ns, genLong(t, nv, nil))
	}
	if rapid.IntRange(0, 5).Draw(t, "missing") == 0 {
		ns = slices.Delete(ns, 0, 1)
	}
	perm := rand.New(rand.NewSource(int64(rapid.Uint32().Draw(t, "perm")))).Perm(len(ns))
	var props []f.Proposition
	by := map[f.Proposition]int{}
	refs := make([]int, len(ns))
	var all []int
	var sb strings.Builder
	for _, i := range perm {
		ns[i] = ns[i].noDups()
		p := f.NewStandardProposition(ns[i].Build(fac, ch.Names))
		by[p] = i
		props = append(props, p)
		refs[i] = ref.lit(ns[i])
		all = append(all, refs[i])
		sb.WriteString(ns[i].str(ch.Names) + " ; ")
	}
	c.Doing(sb.String())
	unsat := !ref.sat(all...)
	c.Case(t, unsat, "%s", sb.String())
	check := func(what string, ps []f.Proposition) {
		var cons []int
		for _, p := range ps {
			i, ok := by[p]
			if !ok || slices.Contains(cons, i) {
				t.Fatalf("%s contains a proposition that was not given or twice", what)
			}
			cons = append(cons, i)
		}
		sub := func(skip int) bool {
			var as []int
			for _, i := range cons {
				if i != skip {
					as = append(as, refs[i])
				}
			}
			return ref.sat(as...)
		}
		if sub(-1) {
			t.Fatalf("%s is satisfiable", what)
		}
		for _, i := range cons {
			if !sub(i) {
				t.Fatalf("%s is not minimal: %s is not needed", what, ns[i].str(ch.Names))
			}
		}
		c.ClassIf(len(cons) >= 12, "MUS with at least 12 elements")
	}
	for r := 0; r < 2; r++ {
		var got *explanation.UnsatCore
		var err error
		if r == 0 {
			got, err = mus.ComputeInsertionBased(fac, &props)
		} else {
			got, err = mus.ComputeDeletionBased(fac, &props)
		}
		if (err == nil) != unsat {
			t.Fatalf("MUS %d: error %v, unsatisfiable: %v", r, err, unsat)
		}
		if unsat {
			check(fmt.Sprintf("MUS %d", r), got.Propositions)
		}
	}
	if len(ns) <= 14 {
		got := smus.Compute(fac, props)
		if (got != nil) != unsat {
			t.Fatalf("SMUS: %v, unsatisfiable: %v", got, unsat)
		}
		if unsat {
			check("SMUS", got)
			// no subset with one element less
			if k := len(got); k > 1 {
				var rec func(i int, as []int)
				rec = func(i int, as []int) {
					if len(as) == k-1 {
						if !ref.sat(as...) {
							t.Fatalf("SMUS of %d elements, but there is a smaller one", k)
						}
						return
					}
					for ; i <= len(refs)-(k-1-len(as)); i++ {
						rec(i+1, append(slices.Clone(as), refs[i]))
					}
				}
				rec(0, nil)
			}
			c.Class("SMUS")
		}
	}
}

// c01Long: enumerations of long constraints projected to some variables.
func c01Long(t *rapid.T, c *Ctx) {
	fac := genFac(t)
	ch := newChain(t, fac, size(t, 4, 50), 1)
	ref := newRefCNF(ch.NV)
	var hidden []bool
	if rapid.IntRange(0, 3).Draw(t, "planted") > 0 {
		hidden = make([]bool, ch.NV)
		for v := range hidden {
			hidden[v] = rapid.Bool().Draw(t, "hidden")
		}
	}
	s := sat.NewSolver(fac)
	var all []int
	var sb strings.Builder
	long := false
	var occurring [][]int
	for i := size(t, 1, 12); i > 0; i-- {
		n := genLong(t, ch.NV, hidden)
		long = long || n.long()
		all = append(all, ref.lit(n))
		x := n.Build(fac, ch.Names)
		var us []int
		for v := range ch.used(x) {
			us = append(us, v)
		}
		slices.Sort(us)
		occurring = append(occurring, us)
		s.Add(x)
		sb.WriteString(n.str(ch.Names) + " ; ")
	}
	var vs []int
	k := rapid.IntRange(1, min(7, ch.NV)).Draw(t, "project")
	start := rapid.IntRange(0, ch.NV-1).Draw(t, "first")
	for i := 0; i < k; i++ {
		vs = append(vs, (start+i)%ch.NV)
	}
	if us := occurring[rapid.IntRange(0, len(occurring)-1).Draw(t, "of")]; len(us) > 1 && rapid.IntRange(0, 3).Draw(t, "occurring") > 0 {
		vs = us[:min(k, len(us))]
		k = len(vs)
	}
	c.Doing(fmt.Sprint(sb.String(), vs))
	exp := map[int]bool{}
	for i := 0; i < 1<<k; i++ {
		as := slices.Clone(all)
		for j, v := range vs {
			as = append(as, refLit(v, i>>j&1 == 1))
		}
		exp[i] = ref.sat(as...)
	}
	total := 0
	for _, b := range exp {
		if b {
			total++
		}
	}
	c.Case(t, long && total > 2 && total < 1<<k, "%s %v", sb.String(), vs)
	for r := 0; r < 2; r++ {
		cfg := &iter.Config{Handler: handler.NopHandler, Strategy: genChainStrategy(t)}
		ms, st := enum.OnSolverWithConfig(s, ch.varsOf(vs), cfg)
		if !st.Success {
			t.Fatalf("enumeration canceled by nobody")
		}
		seen := map[int]bool{}
		for _, m := range ms {
			a := ch.model(t, m.Literals)
			i := 0
			for j, v := range vs {
				b, ok := a[v]
				if !ok {
					t.Fatalf("model %s lacks %s", m.Sprint(fac), ch.Names[v])
				}
				if b {
					i |= 1 << j
				}
			}
			if seen[i] || !exp[i] || len(a) != k {
				t.Fatalf("model %s: twice %v, expected %v", m.Sprint(fac), seen[i], exp[i])
			}
			seen[i] = true
		}
		if len(seen) != total {
			t.Fatalf("%d models, expected %d", len(seen), total)
		}
		if got, st := count.OnSolverWithConfig(s, ch.varsOf(vs), cfg); !st.Success || got.Cmp(big.NewInt(int64(total))) != 0 {
			t.Fatalf("count %v, expected %d", got, total)
		}
	}
}

// m01Long: long hard and soft clauses and constraints.
func m01Long(t *rapid.T, c *Ctx) {
	alg := msAlgs[rapid.IntRange(0, len(msAlgs)-1).Draw(t, "alg")]
	weighted := alg.weighted && (!alg.unw || rapid.Bool().Draw(t, "weighted"))
	pool := weightPool(t, weighted)
	fac := genFac(t)
	ch := newChain(t, fac, size(t, 4, 40), 1)
	cs := "default"
	var s *maxsat.Solver
	if rapid.Bool().Draw(t, "cfg") {
		var cfg *maxsat.Config
		cfg, cs = genMsConfig(t)
		s = alg.mk(fac, cfg)
	} else {
		s = alg.mk(fac)
	}
	var hidden []bool
	if rapid.IntRange(0, 5).Draw(t, "planted") > 0 {
		hidden = make([]bool, ch.NV)
		for v := range hidden {
			hidden[v] = rapid.Bool().Draw(t, "hidden")
		}
	}
	var hard []*N
	var soft []*N
	var ws []int
	// in a file there are only clauses
	file := rapid.IntRange(0, 3).Draw(t, "file") == 0
	names := ch.Names
	if file {
		names = make(Names, ch.NV)
		for i := range names {
			names[i] = fmt.Sprintf("v%d", i+1)
		}
	}
	for i := size(t, 0, 8); i > 0; i-- {
		n := genLong(t, ch.NV, hidden)
		for file && !(n.Op == OpOr || n.Op == OpLit) {
			n = genPart(t, ch.NV, OpOr, pick(t, "size", 4, 40))
			if hidden != nil && !n.eval(hidden) {
				n = nLit(0, hidden[0])
			}
		}
		if file && n.Op == OpOr && slices.ContainsFunc(n.Kids, func(k *N) bool { return k.Op != OpLit }) {
			continue
		}
		hard = append(hard, n)
	}
	w := false
	softs := size(t, 1, 20)
	if strings.HasSuffix(alg.name, "WBO") {
		softs = min(softs, 6)
	}
	for i := 0; i < softs; i++ {
		var n *N
		switch k := rapid.IntRange(0, 5).Draw(t, "soft"); {
		case k <= 2:
			l := genLit(t, ch.NV)
			n = nLit(l.V, l.Pos)
		case file:
			n = genPart(t, ch.NV, OpOr, pick(t, "size", 4, 40))
		case k == 3:
			n = genPart(t, ch.NV, OpAnd, 10)
		default:
			n = genLong(t, ch.NV, nil)
		}
		soft = append(soft, n)
		ws = append(ws, pick(t, "w", pool...))
		w = w || ws[i] > 1
	}
	// long clauses all of whose literals but one are excluded, the last one
	// against a soft formula: the clause matters as a whole
	for i := rapid.IntRange(-1, 2).Draw(t, "funnels"); i > 0; i-- {
		h := hidden
		if h == nil {
			h = make([]bool, ch.NV)
		}
		vs := genPerm(t, ch.NV, "clause")[:size(t, 2, ch.NV)]
		last := rapid.IntRange(0, len(vs)-1).Draw(t, "last")
		wrap := !file && rapid.IntRange(0, 2).Draw(t, "wrap") == 0
		negated := !file && rapid.IntRange(0, 3).Draw(t, "negated") == 0
		cl := &N{Op: OpOr}
		var units []*N
		for j, v := range vs {
			l := nLit(v, h[v] == (j == last))
			if j != last {
				units = append(units, nLit(v, h[v]))
			}
			if wrap && j != last && rapid.IntRange(0, 3).Draw(t, "in") == 0 {
				other := (v + 1) % ch.NV
				l = nOp(OpAnd, l, nLit(other, h[other]))
			}
			cl.Kids = append(cl.Kids, l)
		}
		if negated {
			for j, k := range cl.Kids {
				cl.Kids[j] = nOp(OpNot, k)
			}
			cl = nOp(OpNot, nOp(OpAnd, cl.Kids...))
		}
		at := rapid.IntRange(0, len(units)).Draw(t, "position")
		if !file && rapid.IntRange(0, 2).Draw(t, "implies") == 0 {
			// the disjunction or conjunction implies a literal
			z := rapid.IntRange(0, ch.NV-1).Draw(t, "implied")
			n := nOp(pick(t, "impl", OpImpl, OpImpl, OpEquiv), cl, nLit(z, h[z]))
			units = slices.Insert(units, at, n)
			soft = append(soft, nLit(z, !h[z]))
			hard = append(hard, units...)
			if rapid.Bool().Draw(t, "last is hard") {
				hard = append(hard, nLit(vs[last], h[vs[last]]))
			} else {
				soft = append(soft, nLit(vs[last], h[vs[last]]))
			}
			for len(ws) < len(soft) {
				ws = append(ws, pick(t, "w", pool...))
				w = w || ws[len(ws)-1] > 1
			}
			continue
		}
		if rapid.IntRange(0, 2).Draw(t, "soft clause") == 0 {
			soft = append(soft, cl)
			ws = append(ws, pick(t, "w", pool...))
			w = w || ws[len(ws)-1] > 1
		} else {
			units = slices.Insert(units, at, cl)
		}
		hard = append(hard, units...)
		soft = append(soft, nLit(vs[last], !h[vs[last]]))
		ws = append(ws, pick(t, "w", pool...))
		w = w || ws[len(ws)-1] > 1
		c.Class("long clause reduced to a literal")
	}
	if w && !alg.weighted || !w && !alg.unw {
		return
	}
	wcnf := ""
	line := func(n *N, w int) {
		ls := []L{n.Lit}
		if n.Op == OpOr {
			ls = nil
			for _, k := range n.Kids {
				ls = append(ls, k.Lit)
			}
		}
		wcnf += fmt.Sprint(w)
		for _, l := range ls {
			if l.Pos {
				wcnf += fmt.Sprintf(" %d", l.V+1)
			} else {
				wcnf += fmt.Sprintf(" -%d", l.V+1)
			}
		}
		wcnf += " 0\n"
	}
	ref := newRefCNF(ch.NV)
	var sb strings.Builder
	sb.WriteString(alg.name + " " + cs)
	var refs []int
	long := false
	for _, n := range hard {
		long = long || n.long()
		if file {
			line(n, 1<<40)
		} else {
			s.AddHardFormula(n.Build(fac, ch.Names))
		}
		refs = append(refs, ref.lit(n))
		sb.WriteString(" ; " + n.str(ch.Names))
	}
	// the cost as a sum over literals of the falsified soft formulas
	cost := &N{Op: OpPBC, Cmp: LT, Route: 2}
	for i, n := range soft {
		long = long || n.long()
		if file {
			line(n, ws[i])
		} else if err := s.AddSoftFormula(n.Build(fac, ch.Names), ws[i]); err != nil {
			t.Fatalf("soft formula rejected: %v", err)
		}
		fmt.Fprintf(&sb, " ; %d:%s", ws[i], n.str(ch.Names))
		r := ref.lit(n)
		cost.Lits = append(cost.Lits, L{r / 2, r&1 == 1})
		cost.Cs = append(cost.Cs, ws[i])
	}
	if file {
		sb.WriteString(" from a file")
	}
	c.Doing(sb.String())
	if file {
		dir, done := scratch(t)
		defer done()
		path := filepath.Join(dir, "p.wcnf")
		if err := os.WriteFile(path, []byte(fmt.Sprintf("p wcnf %d %d %d\n", ch.NV, len(hard)+len(soft), 1<<40)+wcnf), 0o644); err != nil {
			t.Skip("no scratch")
		}
		if err := maxsat.ReadDimacsToSolver(fac, s, path); err != nil {
			t.Fatalf("reading failed: %v", err)
		}
	}
	var res maxsat.Result
	if alg.explodes(len(soft)) {
		var st handler.State
		if res, st = s.SolveWithHandler(&kHandler{k: wboLimit, sticky: true}); !st.Success {
			c.Class("not decided within the event limit")
			return
		}
	} else {
		res, _ = s.SolveWithHandler(&effort{left: longEffort})
	}
	want := ref.sat(refs...)
	c.Case(t, want && long && res.Optimum > 0, "%s", sb.String())
	if res.Satisfiable != want {
		t.Fatalf("satisfiable %v, expected %v", res.Satisfiable, want)
	}
	if !want {
		return
	}
	var ls []f.Literal
	for _, l := range res.Model.Literals {
		name, pos, _ := fac.LitNamePhase(l)
		if i := slices.Index(names, name); i >= 0 {
			ls = append(ls, fac.Lit(ch.Names[i], pos))
		}
	}
	as := slices.Clone(refs)
	for v, b := range ch.model(t, ls) {
		as = append(as, refLit(v, b))
	}
	at := *cost
	at.Rhs = res.Optimum + 1
	if !ref.sat(append(as, ref.lit(&at))...) {
		t.Fatalf("the model does not have the reported cost %d", res.Optimum)
	}
	at.Rhs = res.Optimum
	if ref.sat(append(slices.Clone(refs), ref.lit(&at))...) {
		t.Fatalf("the optimum is less than %d", res.Optimum)
	}
	c.ClassIf(res.Optimum > 4, "optimum of at least 5")
	c.Class(alg.name)
}
